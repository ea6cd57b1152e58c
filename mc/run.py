"""Runs the check of one property:  run.py <property> [quick|thorough]

Exit 0: the property held on everything explored; exit 1 with a VIOLATION line otherwise.  Evidence goes to
/verif/evidence/<property>.json, counterexamples to /verif/evidence/replay/.
"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

LIMIT = {'quick': 600, 'thorough': 6 * 3600}


def findings(prop):
    """Known findings of this property: {signature: text}."""
    out = {}
    f = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                body = line.split(' ', 2)[2]
                sig, _, text = body.partition(' :: ')
                out[sig.strip()] = text.strip()
    return out


def task(args):
    prop, name, part, nparts, tier, deadline = args
    t0 = time.time()
    try:
        mod = importlib.import_module('mc.props.' + prop.lower())
        for x in mod.tasks(tier):
            if x.name == name:
                r = x.run(tier, part, nparts, deadline)
                r['wall'] = round(time.time() - t0, 2)
                return r
        raise KeyError(name)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException:
        from mc.cases import blames_code
        t = traceback.format_exc()
        r = {'scenario': name, 'part': part, 'nparts': nparts, 'wall': round(time.time() - t0, 2), 'complete': False}
        if blames_code(t):
            # the code under test failed where nothing may fail
            r['violations'] = [{'kind': 'error', 'detail': 'unexpected failure: ' + t[-700:], 'history': [],
                                'text': ['scenario ' + name], 'at': 'error'}]
        else:
            r['error'] = t
        return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))

    results, violations, broken = [], [], []
    mod = importlib.import_module('mc.props.' + prop.lower())
    from mc import explore as X
    deadline = t0 + LIMIT[tier]
    try:
        X.preload()
        loaded = True
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException:
        # the contracts cannot be imported at all: nothing they promise holds
        violations.append({'scenario': 'import', 'kind': 'import', 'detail': traceback.format_exc()[-800:],
                           'history': [], 'text': ['import of the contract package'], 'at': 'import'})
        loaded = False
    if loaded:
        todo = []
        for sc in mod.tasks(tier):
            if only and only != sc.name:
                continue
            n = sc.parts[tier] if isinstance(sc.parts, dict) else sc.parts
            todo += [(prop, sc.name, i, n, tier, deadline) for i in range(n)]
        workers = min(int(os.environ.get('MC_JOBS', '8')), len(todo))
        ctx = mp.get_context('fork')
        with ctx.Pool(workers, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(task, todo, chunksize=1):
                results.append(r)
                if 'error' in r:
                    broken.append(r)
                for v in r.get('violations', ()):
                    violations.append(dict(v, scenario=r['scenario']))

    known = findings(prop)
    fresh, listed = [], set()
    for v in violations:
        sig = v.get('signature')
        if sig in known:
            listed.add(sig)
        else:
            fresh.append(v)

    tot = lambda k: sum(r.get(k, 0) for r in results)
    complete = loaded and not broken and all(r.get('complete', True) for r in results)
    by = {}
    for r in results:
        b = by.setdefault(r['scenario'], {'parts': 0, 'states': 0, 'transitions': 0, 'ok': 0, 'fail': 0, 'faults': 0,
                                          'depth_completed': None, 'depth_bound': None, 'wall_s': 0})
        b['parts'] += 1
        for k in ('states', 'transitions', 'ok', 'fail', 'faults'):
            b[k] += r.get(k, 0)
        if 'depth' in r:
            b['depth_completed'] = r['depth'] if b['depth_completed'] is None else min(b['depth_completed'],
                                                                                       r['depth'])
            b['depth_bound'] = r.get('bound')
        b['wall_s'] = round(max(b['wall_s'], r.get('wall', 0)), 2)
    samples = []
    for r in results:
        for s in r.get('samples', [])[:1]:
            samples.append({'scenario': r['scenario'], 'history': s})
    level = getattr(mod, 'LEVEL', 'model_checking')
    cov = {'states': tot('states'), 'transitions': tot('transitions'),
           'traces_validated_against_impl': tot('replayed'),
           'samples': samples[:6] or ['none'],
           'accepted_operations': tot('ok'), 'rejected_operations': tot('fail'),
           'injected_failures': tot('faults'), 'observations_compared': tot('queries'),
           'events_compared': tot('events'), 'distinct_outcomes': tot('outcomes'),
           'scenarios': by, 'exhaustive': complete,
           'rule': getattr(mod, 'RULE', 'breadth-first over the stated operation alphabets up to the stated depth; '
                           'every transition is executed on the real contracts and on the reference model, and all '
                           'read-only views of all contracts are compared; states are distinct full chain states '
                           '(counted per partition); traces_validated counts whole histories re-run from deployment '
                           'on a fresh chain without snapshots and compared with the explored state')}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + BASE_ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    if level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = tot('transitions')
        cov['distinct_nontrivial'] = tot('nontrivial')
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for sig in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]))
    print('%s %s: %d scenarios, %d states, %d transitions (%d accepted, %d rejected), %d injected failures, '
          '%d traces re-run, %.1fs%s' % (prop, tier, len(by), cov['states'], cov['transitions'], tot('ok'),
                                         tot('fail'), tot('faults'), tot('replayed'), ev['wall_s'],
                                         '' if complete else ' (INCOMPLETE)'))
    fresh.sort(key=lambda v: len(v['history']))
    for n, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop), f, indent=1)
        print('  [%s] %s: %s' % (v['scenario'], v['kind'], v['detail'][:600]))
        for line in v['text'][-6:]:
            print('      ' + line[:300])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for r in broken[:3]:
        print(r['scenario'], r['error'], file=sys.stderr)
    if fresh:
        sys.exit(1)
    if broken:
        sys.exit(3)
    sys.exit(0)


BASE_ASSUMPTIONS = [
    'platform substituted: LevelDB by a dict, deploy bookkeeping by an instance registry, step costs by a counter; '
    'iconservice 1.1.2 dispatch, inner calls, batches, ICX engine, container DBs and event logs are the real code',
    'behaviours outside the stated alphabets, depths and participants are not covered',
]

if __name__ == '__main__':
    main()
