"""Explicit-state exploration of the real contracts in lockstep with the reference model.

A node is a reached chain state (storage + long-lived instance state + class/module state).  From every
node every operation of the scenario's alphabet is executed on the real code and on the model; success or
failure, return value, events and the whole observable state are compared; scenario invariants are
evaluated.  Breadth first, deduplicated by a hash of the full chain state, up to the scenario's depth.
"""
import json
import os
import signal
import sys
import time
import traceback
import zlib
import multiprocessing as mp

from . import chain as CH
from . import spec as SP
from .chain import Address, AddressPrefix, Chain, Faults, Raw, ZERO_SCORE, addr

# ------------------------------------------------------------------------------------------------- names
NAMES = {}
LABEL = {}


def _name(label, a):
    NAMES[label] = a
    LABEL[a] = label


for _i, _l in enumerate(['owner', 'alice', 'bob', 'carol', 'mgr', 'eve', 'dave', 'genesis'], 0x11):
    _name(_l, addr(_i * 0x0101010101, False))
_name('zero', addr(0, False))
for _i, _l in enumerate(['TK1', 'TK2', 'TK3', 'FT1', 'FT2', 'FT3', 'ICXT', 'ICXT2', 'CONV1', 'CONV2', 'CONV3', 'NET',
                         'NET2', 'REG1', 'REG2', 'REG3', 'ACT1', 'ACT2', 'ACT3', 'MUTE', 'FAKE1', 'FAKE2', 'NOWHERE',
                         'CONVX'] + ['F%02d' % i for i in range(1, 13)] + ['C%02d' % i for i in range(1, 13)]
                        + ['T%02d' % i for i in range(0, 13)]
                        + ['EVIL1', 'EVIL2', 'EVIL3', 'FAKE3'] + ['T%02d' % i for i in range(13, 17)], 0x41):
    _name(_l, addr(_i * 0x010101010101, True))
_name('ZERO', ZERO_SCORE)
# twins: the account whose address has the same body as a contract's, and the other way round
for _l in ('TK1', 'FT1', 'ICXT', 'CONV1', 'NET', 'REG1', 'ACT1', 'ACT2'):
    _name('x' + _l, Address(AddressPrefix.EOA, NAMES[_l].body))
for _l in ('owner', 'alice', 'bob', 'mgr'):
    _name('c' + _l, Address(AddressPrefix.CONTRACT, NAMES[_l].body))


def A(label):
    return NAMES[label]


def lab(a):
    return LABEL.get(a, str(a)) if isinstance(a, Address) else a


# -------------------------------------------------------------------------------------------- operations
def tx(sender, to, method, value=0, **params):
    """Transaction; strings starting with '@' in params are address labels."""
    p = {k: (NAMES[v[1:]] if isinstance(v, str) and v.startswith('@') else v) for k, v in params.items()}
    return ('tx', NAMES[sender], NAMES[to], method, p, value)


def coin(sender, to, value):
    return ('tx', NAMES[sender], NAMES[to], None, {}, value)


def q(to, method, **params):
    p = {k: (NAMES[v[1:]] if isinstance(v, str) and v.startswith('@') else v) for k, v in params.items()}
    return ('q', NAMES[to], method, p)


def deploy(kind, label, owner, **params):
    p = {k: (NAMES[v[1:]] if isinstance(v, str) and v.startswith('@') else v) for k, v in params.items()}
    return ('deploy', kind, NAMES[label], NAMES[owner], p)


def update(label, owner):
    return ('update', NAMES[label], NAMES[owner])


RESTART = ('restart',)


def sweep(op, kinds=('step', 'call', 'after')):
    """The given transaction with a failure injected at every possible point, one run per point."""
    return ('sweep', kinds, op)


def path(*labels):
    return ','.join(str(NAMES[x]) if x in NAMES else x for x in labels)


def convdata(labels, minr, target=None, **extra):
    d = {'path': path(*labels) if not isinstance(labels, str) else labels, 'minReturn': minr}
    if target is not None:
        d['for'] = str(NAMES[target]) if target in NAMES else target
    d.update(extra)
    return json.dumps(d).encode()


def prog(*steps):
    """Actor program: steps (to, method, args, value, catch)."""
    def e(v):
        if isinstance(v, Address):
            return '@' + str(v)
        if isinstance(v, bytes):
            return 'b:' + v.hex()
        if isinstance(v, str):
            return '@' + str(NAMES[v[1:]]) if v.startswith('@') else 's:' + v
        return v
    out = []
    for to, method, args, value, catch in steps:
        out.append(['@' + str(NAMES[to]), method, [e(x) for x in args], value, catch])
    return json.dumps(out)


# Every amount of a scenario multiplied by a (non-round) unit: realistic balances, beyond machine words and floats
BIG = 10 ** 18 + 9


class Exact(int):
    """An amount in units that stands for an exact number of the smallest parts."""
    def __new__(cls, raw, unit):
        self = int.__new__(cls, raw // unit)
        self.raw = raw
        return self


AMOUNTS = ('_value', '_amount', '_virtualBalance', '_initialSupply', '_balance')
AMOUNT_ARG = {'transfer': 1, 'issue': 1, 'destroy': 1, 'withdraw': 0, 'withdrawTo': 0, 'withdrawTokens': 2,
              'withdrawFromToken': 2, 'updateConnector': 3}


def scale(op, u):
    def n(x):
        if isinstance(x, bool) or not isinstance(x, int):
            return x
        return x.raw if isinstance(x, Exact) else x * u

    def steps(text):
        out = []
        for to, method, args, value, catch in json.loads(text):
            args = [json.dumps(steps(a[2:])) if method == 'run' and isinstance(a, str) and a.startswith('s:[') else a
                    for a in args]
            if method == 'run':
                args = ['s:' + a if not a.startswith('s:') else a for a in args]
            i = AMOUNT_ARG.get(method)
            if i is not None and i < len(args):
                args[i] = n(args[i])
            out.append([to, method, args, n(value), catch])
        return out

    def params(p):
        return {k: n(v) if k in AMOUNTS else
                json.dumps(steps(v)) if k in ('_prog', '_onToken', '_onCoin', '_onTransfer', '_onOwner') and v else v
                for k, v in p.items()}
    if op[0] == 'tx':
        return ('tx', op[1], op[2], op[3], params(op[4]), n(op[5]))
    if op[0] == 'q':
        return ('q', op[1], op[2], params(op[3]))
    if op[0] == 'deploy':
        return op[:4] + (params(op[4]),)
    if op[0] == 'sweep':
        return op[:2] + (scale(op[2], u),)
    return op


# JSON form of operations for replay artefacts
def to_json(v):
    if isinstance(v, Address):
        return {'a': lab(v)}
    if isinstance(v, Raw):
        return {'raw': v.s}
    if isinstance(v, bytes):
        return {'b': v.hex()}
    if isinstance(v, tuple):
        return {'t': [to_json(x) for x in v]}
    if isinstance(v, list):
        return {'l': [to_json(x) for x in v]}
    if isinstance(v, dict):
        return {'d': [[k, to_json(x)] for k, x in v.items()]}
    if isinstance(v, int) and not isinstance(v, bool):
        return {'i': str(v)}
    return v


def from_json(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == 'a':
            return NAMES[x] if x in NAMES else Address.from_string(x)
        if k == 'raw':
            return Raw(x)
        if k == 'b':
            return bytes.fromhex(x)
        if k == 't':
            return tuple(from_json(y) for y in x)
        if k == 'l':
            return [from_json(y) for y in x]
        if k == 'd':
            return {kk: from_json(y) for kk, y in x}
        if k == 'i':
            return int(x)
    return v


def show(v):
    if isinstance(v, Address):
        return lab(v)
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (show(k), show(x)) for k, x in v.items()) + '}'
    if isinstance(v, (tuple, list)):
        return '(' + ', '.join(show(x) for x in v) + ')'
    if isinstance(v, str):
        for a, l in LABEL.items():
            if str(a) in v:
                v = v.replace(str(a), l)
        return v
    return repr(v)


def canon(v):
    """An event value for comparison; the request the network writes for a converter may be spelled any way JSON allows."""
    if isinstance(v, bytes) and b'toToken' in v:
        try:
            d = json.loads(v.decode())
            if isinstance(d, dict) and 'toToken' in d:
                return 'request %s' % json.dumps(d, sort_keys=True)
        except ValueError:
            pass
    return show(v)


def show_op(op):
    k = op[0]
    if k == 'tx':
        return '%s -> %s.%s(%s)%s' % (lab(op[1]), lab(op[2]), op[3] or '<coin transfer>',
                                      ', '.join('%s=%s' % (n, show(v)) for n, v in op[4].items()),
                                      ' value=%d' % op[5] if op[5] else '')
    if k == 'q':
        return 'query %s.%s(%s)' % (lab(op[1]), op[2], ', '.join('%s=%s' % (n, show(v)) for n, v in op[3].items()))
    if k == 'deploy':
        return 'deploy %s at %s by %s (%s)' % (op[1], lab(op[2]), lab(op[3]),
                                               ', '.join('%s=%s' % (n, show(v)) for n, v in op[4].items()))
    if k == 'sweep':
        return 'every failure point of: %s' % show_op(op[2])
    if k == 'inter':
        return show_op(op[1]) + '  ||  ' + show_op(op[2])
    return show(op)


# ----------------------------------------------------------------------------------------- observations
TOKENISH = ('IRC', 'FT', 'ICXT', 'QUIET')


def observations(world, sc):
    """Queries that together expose the observable state of all contracts in the scenario."""
    obs = []
    holders = [NAMES[x] for x in sc.watch]
    toks = [a for a, k in world.items() if k in TOKENISH]
    allc = list(world)
    for a, k in world.items():
        if sc.only is not None and LABEL[a] not in sc.only:
            continue
        if k in TOKENISH:
            for h in holders + allc:
                obs.append((a, 'balanceOf', {'_owner': h}))
            for m in ('totalSupply',):
                obs.append((a, m, {}))
            if sc.static and k != 'QUIET':
                for m in ('name', 'symbol', 'decimals'):
                    obs.append((a, m, {}))
        if k in ('FT', 'ICXT', 'REG', 'NET', 'CONV'):
            obs.append((a, 'getOwner', {}))
            obs.append((a, 'getNewOwner', {}))
        if k == 'FT':
            obs.append((a, 'getTransferPossibility', {}))
            if sc.static:
                obs.append((a, 'getFlexibleTokenVersion', {}))
        if k == 'REG':
            for n in ('ScoreRegistry', 'Network'):
                obs.append((a, 'getAddress', {'_scoreName': n}))
            if sc.static:
                obs.append((a, 'getScoreIds', {}))
                obs.append((a, 'getAddress', {'_scoreName': 'Other'}))
                obs.append((a, 'getAddress', {'_scoreName': ''}))
        if k == 'NET':
            for t in toks:
                obs.append((a, 'getIcxTokenRegistered', {'_icxToken': t}))
        if k == 'CONV':
            for m in ('getManager', 'getNewManager', 'getToken', 'getRegistry', 'getPreviousRegistry',
                      'isAllowRegistryUpdate', 'getMaxConversionFee', 'getConversionFee', 'isConversionsEnabled',
                      'isActive', 'getConnectorTokenCount'):
                obs.append((a, m, {}))
            for i in range(-1 if sc.static else 0, sc.max_connectors + 1):
                obs.append((a, 'getConnectorAt', {'_index': i}))
            for t in toks:
                obs.append((a, 'getConnector', {'_address': t}))
                obs.append((a, 'getConnectorBalance', {'_connectorToken': t}))
    if sc.views is not None:
        obs = [x for x in obs if x[1] in sc.views]
    return obs


class Scenario(object):
    """One bounded space of behaviours."""
    watch = ('owner', 'alice', 'bob')
    only = None                # labels of the contracts whose views are compared (None: all)
    views = None               # names of the views compared (None: all)
    static = False
    max_connectors = 2
    depth = {'quick': 2, 'thorough': 3}
    parts = {'quick': 1, 'thorough': 8}
    coins = {}                 # label -> initial coins
    compare_events = False     # DEX events are compared (recipient notifications always are)
    compare_ret = False
    compare_state = True
    compare_coins = True
    compare_status = True
    max_states = {'quick': 400000, 'thorough': 4000000}
    replays = 5
    unit = 1
    long_runs = True           # also explore histories far beyond the depth bound (see long_runs)

    @property
    def has_probes(self):
        return type(self).probes is not Scenario.probes

    def __init__(self, name=None, **kw):
        self.name = name or type(self).__name__
        for k, v in kw.items():
            setattr(self, k, v)
        if self.unit != 1:
            self.coins = {k: v * self.unit for k, v in self.coins.items()}

    # what the scenario lists, in its unit
    def scaled(self, ops):
        return ops if self.unit == 1 else (scale(op, self.unit) for op in ops)

    def setup_ops(self):
        return self.scaled(self.setup())

    def alphabet_ops(self, M, depth):
        return self.scaled(self.alphabet(M, depth))

    def probe_ops(self, M, depth):
        return self.scaled(self.probes(M, depth))

    def setup(self):
        return []

    def alphabet(self, M, depth):
        return []

    def probes(self, M, depth):
        """Operations executed and compared in every reached state (also at the bound) but not expanded."""
        return ()

    def invariant(self, W):
        """Checked in every reached state; returns None or a description of what fails."""
        return None

    def before_step(self, W, op):
        """Runs in the source state; the result is W.ctx in step_invariant."""
        return None

    def step_invariant(self, W, op, before, ok, ret, events):
        """Checked on every transition; `before` is the observation of the source state."""
        return None


HARNESS_EVENTS = ('Got(', 'GotCoin(', 'Saw(')


def ev_key(e):
    return repr(e)


class World(object):
    """The real chain and the reference model side by side."""

    def __init__(self, sc):
        self.sc = sc
        self.chain = Chain()
        # the explorations start at different places in the sequence of blocks
        self.chain.clock = zlib.crc32(sc.name.encode()) % len(CH.PACE)
        self.spec = SP.Spec()
        self.spec.unit = sc.unit
        self.kinds = {}
        self.obs_list = []
        self.obs = None
        self.ctx = None
        self.after_seen = {}
        self.follow_seen = {}
        self.stats = {'tx': 0, 'ok': 0, 'fail': 0, 'q': 0, 'events': 0, 'faults': 0}
        for l, n in sc.coins.items():
            self.chain.set_icx(NAMES[l], n)
            self.spec.icx[NAMES[l]] = n
        self.total_coins = sum(sc.coins.values())

    # -- observation of the real contracts
    def observe(self):
        ch = self.chain
        out = {}
        for a, m, p in self.obs_list:
            ok, v = ch.query(a, m, p)
            out[(a, m) + tuple(p.values())] = v if ok else SP.Fail
        for a in self.icx_list:
            out[(a, 'icx')] = ch.icx_of(a)
        self.stats['q'] += len(self.obs_list)
        return out

    def expected(self):
        sp = self.spec
        out = {}
        for a, m, p in self.obs_list:
            ok, v = sp.query(a, m, p)
            out[(a, m) + tuple(p.values())] = v if ok else SP.Fail
        for a in self.icx_list:
            out[(a, 'icx')] = sp.icx.get(a, 0)
        return out

    def undeploy(self, a):
        ch = self.chain
        for d in (ch.scores, ch.deployers, ch.classes, self.kinds):
            d.pop(a, None)
        if a in ch.order:
            ch.order.remove(a)
        self.relist()

    def relist(self):
        self.obs_list = observations(self.kinds, self.sc)
        self.icx_list = [NAMES[x] for x in self.sc.watch] + list(self.kinds) if self.sc.compare_coins else []

    # -- apply one operation to both; returns (ok, divergence or None)
    def apply(self, op):
        k = op[0]
        st = self.stats
        if k == 'tx':
            st['tx'] += 1
            r = self.chain.tx(op[1], op[2], op[3], op[4], op[5])
            m = self.spec.tx(op[1], op[2], op[3], op[4], op[5])
        elif k == 'deploy':
            st['tx'] += 1
            r = self.chain.deploy(CLASSES(op[1]), op[2], op[3], op[4])
            m = self.spec.install(op[1], op[2], op[3], op[4])
            if m[0] and r.ok:
                self.kinds[op[2]] = op[1]
                self.relist()
        elif k == 'update':
            st['tx'] += 1
            r = self.chain.update(op[1], op[2])
            m = (True, None, ())
        elif k == 'restart':
            st['tx'] += 1
            r = self.chain.restart()
            m = (True, None, ())
        elif k == 'q':
            st['tx'] += 1
            ok, v = self.chain.query(op[1], op[2], op[3], True)
            r = CH.Result(ok, v, ())
            mo, mv = self.spec.query(op[1], op[2], op[3])
            m = (mo, mv, ())
            st['ok' if ok else 'fail'] += 1
            if (ok, v) != (mo, mv):
                return r, ('query', 'got %s, expected %s' % (show(v) if ok else 'failure',
                                                            show(mv) if mo else 'failure'))
            return r, None
        else:
            raise ValueError(op)
        st['ok' if r.ok else 'fail'] += 1
        if self.sc.compare_status and r.ok != m[0]:
            return r, ('status', '%s, expected %s%s' % ('succeeded' if r.ok else 'failed', 'success' if m[0] else
                                                        'failure', ' [%s]' % r.err if r.err else ''))
        if r.ok and m[0]:
            d = self._events(r.events, m[2])
            if d:
                return r, d
            if self.sc.compare_ret and k == 'tx' and r.ret != m[1]:
                return r, ('return', 'returned %s, expected %s' % (show(r.ret), show(m[1])))
        return r, None

    def _events(self, got, exp):
        full = self.sc.compare_events
        g, e = [], []
        for x in got:
            t = (lab(x.score_address), tuple(canon(y) for y in x.indexed), tuple(canon(y) for y in x.data))
            if full or x.indexed[0].startswith(HARNESS_EVENTS):
                g.append(t)
        for x in exp:
            t = (lab(x[0]), tuple(canon(y) for y in x[1]), tuple(canon(y) for y in x[2]))
            if full or x[1][0].startswith(HARNESS_EVENTS):
                e.append(t)
        self.stats['events'] += len(g)
        if g != e and sorted(g) != sorted(e):
            extra = [x for x in g if x not in e]
            missing = [x for x in e if x not in g]
            return ('events', 'unexpected %s; missing %s' % (extra, missing) if extra or missing
                    else 'events repeated: got %s expected %s' % (g, e))
        return None

    def sweep(self, op, state, fz):
        """Runs op once, then again from the same state with a failure injected at every step charge and at
        every nested call (before / after the callee did its work).  None or a divergence (with the fault)."""
        ch = self.chain
        _, kinds, t = op
        args = t[1:]
        probe = Faults(None)
        base = ch.tx(*args, fault=probe)
        n = {'step': base.steps, 'call': probe.n, 'after': probe.n}
        ch.load(state)
        for kind in kinds:
            for k in range(1, n[kind] + 1):
                f = None if kind == 'step' else Faults(k, 'before' if kind == 'call' else 'after')
                r = ch.tx(*args, fail_step=k if kind == 'step' else None, fault=f)
                self.stats['faults'] += 1
                self.stats['tx'] += 1
                where = 'fault[%s %d of %d]' % (kind, k, n[kind])
                if r.ok:
                    if (r.steps if kind == 'step' else f.n) >= k:
                        return ('fault', '%s: the transaction reported success although part of it failed' % where)
                if ch.kv.d is not state.kv or ch.save(state).key != state.key:
                    self.spec.adopt(fz)
                    d = self.diff()
                    if d is not None:
                        return ('fault', '%s left a trace: %s' % (where, d[1]))
                    # memory outside storage changed: later behaviour must still be the same
                    r2 = ch.tx(*args)
                    m2 = self.spec.tx(*args)
                    d = ('status', 'retry %s' % ('succeeded' if r2.ok else 'failed: %s' % r2.err)) \
                        if r2.ok != m2[0] else self.diff()
                    if d is not None:
                        return ('fault', '%s changed the later behaviour: %s' % (where, d[1]))
                    ch.load(state)
                    ch.tx(*args, fail_step=k if kind == 'step' else None,
                          fault=None if kind == 'step' else Faults(k, 'before' if kind == 'call' else 'after'))
                    d = self.aftermath(ch.save(state), fz)
                    if d is not None:
                        return ('fault', '%s changed the later behaviour: %s' % (where, d[1]))
                    ch.load(state)
        return None

    AFTERMATHS = 12
    AFTER_OPS = 150

    def aftermath(self, state, fz):
        """A failed transaction left a trace outside the storage (state): nothing the scenario can do next may
        behave differently because of it."""
        mem = memory(state)
        if self.after_seen.get(mem, 0) >= 3 or sum(self.after_seen.values()) >= self.AFTERMATHS:
            return None
        self.after_seen[mem] = self.after_seen.get(mem, 0) + 1
        obs = self.obs
        self.spec.adopt(fz)
        ops = list(self.sc.alphabet_ops(self.spec, 0))
        self.spec.adopt(fz)
        ops += [o for o in self.sc.probe_ops(self.spec, 0)]
        for op in spread(ops)[:self.AFTER_OPS]:
            self.chain.load(state)
            self.spec.adopt(fz)
            r, d = self.apply(op)
            if d is None and op[0] != 'q' and self.sc.compare_state:
                d = self.diff()
            if d is not None:
                self.obs = obs
                return (d[0], 'after the failed transaction, %s: %s' % (show_op(op), d[1]))
        self.obs = obs
        return None

    FOLLOWUPS = 5
    FOLLOW_OPS = 24
    FOLLOW_PROBES = 12

    def followup(self, probe, state, fz, hist):
        """A probe (executed, but not expanded) changed memory outside the storage: what the scenario can do next
        must not behave differently because of it.  One operation of the alphabet, then the probes.
        None or (divergence, history)."""
        mem, kind = memory(state), (okey(probe), probe[2] if probe[0] == 'tx' else probe[1:2])
        if mem in self.follow_seen or kind in self.follow_seen or \
                len(self.follow_seen) >= 2 * (1 if hist else self.FOLLOWUPS):
            return None
        self.follow_seen.update({mem: 1, kind: 1})
        obs = self.obs

        def one(st, f, op):
            self.chain.load(st)
            self.spec.adopt(f)
            r, d = self.apply(op)
            if d is None and op[0] != 'q' and self.sc.compare_state:
                d = self.diff()
            return d
        self.spec.adopt(fz)
        ops = spread(self.sc.alphabet_ops(self.spec, 0))[:self.FOLLOW_OPS]
        for op in ops:
            d = one(state, fz, op)
            if d is not None:
                self.obs = obs
                return d, hist + (probe, op)
            s2, f2 = self.chain.save(), self.spec.frozen()
            self.spec.adopt(f2)
            nxt = ([probe] if probe[0] == 'tx' else []) + spread(self.sc.probe_ops(self.spec, 0))[:self.FOLLOW_PROBES]
            for p in nxt:
                d = one(s2, f2, p)
                if d is not None:
                    self.obs = obs
                    return d, hist + (probe, op, p)
        self.obs = obs
        return None

    def diff(self):
        """Observable state of the real contracts vs the model."""
        self.obs = got = self.observe()
        exp = self.expected()
        for key, n, m in self.others():
            if n != m:
                return ('state', '%s.%s(%s) = %s, expected %s' % (
                    lab(key[0]), key[1], lab(key[2]), 'failure' if n is SP.Fail else show(n), show(m)))
        if got == exp:
            return None
        out = []
        for key in exp:
            if got.get(key) != exp[key]:
                out.append('%s.%s(%s) = %s, expected %s' % (
                    lab(key[0]), key[1], ', '.join(show(x) for x in key[2:]),
                    'failure' if got.get(key) is SP.Fail else show(got.get(key)),
                    'failure' if exp[key] is SP.Fail else show(exp[key])))
        return ('state', '; '.join(out[:6]))

    def others(self):
        """(what, observed, model) for the accounts the scenario does not watch but the model says hold something."""
        if self.sc.views is not None and 'balanceOf' not in self.sc.views:
            return
        seen = {NAMES[x] for x in self.sc.watch} | set(self.kinds)
        for t, k in self.kinds.items():
            if k in TOKENISH and t in self.spec.c and (self.sc.only is None or LABEL[t] in self.sc.only):
                for h, n in self.spec.c[t]['bal'].items():
                    if h not in seen:
                        ok, v = self.chain.query(t, 'balanceOf', {'_owner': h})
                        self.stats['q'] += 1
                        yield (t, 'balanceOf', h), v if ok else SP.Fail, n

    def conserved(self):
        """Supply == sum of balances, nothing negative, for every token in the world (real observations)."""
        sums, sup = {}, {}
        for k, v in self.obs.items():
            if k[1] == 'balanceOf':
                if not isinstance(v, int) or v < 0:
                    return '%s balance of %s is %s' % (lab(k[0]), lab(k[2]), show(v))
                sums[k[0]] = sums.get(k[0], 0) + v
            elif k[1] == 'totalSupply':
                sup[k[0]] = v
        for k, v, _ in self.others():
            sums[k[0]] = sums.get(k[0], 0) + (v if isinstance(v, int) else 0)
        for t, n in sup.items():
            if t in sums and sums[t] != n:
                return '%s total supply is %s but the balances sum to %s' % (lab(t), show(n), sums[t])
        return None

    def bal(self, token, who):
        return self.obs[(NAMES[token], 'balanceOf', NAMES[who])]

    def o(self, label, method, *args):
        return self.obs[(NAMES[label], method) + tuple(NAMES[x] if x in NAMES else x for x in args)]


_classes = {}


def CLASSES(kind):
    if not _classes:
        load_contracts()
    return _classes[kind]


def load_contracts():
    from . import actors
    from contracts.irc_token.irc_token import IRCToken
    from contracts.flexible_token.flexible_token import FlexibleToken
    from contracts.icx_token.icx_token import IcxToken
    from contracts.converter.converter import Converter
    from contracts.network.network import Network
    from contracts.score_registry.score_registry import ScoreRegistry
    _classes.update({'IRC': IRCToken, 'FT': FlexibleToken, 'ICXT': IcxToken, 'CONV': Converter, 'NET': Network,
                     'REG': ScoreRegistry, 'ACT': actors.Actor, 'MUTE': actors.Mute, 'FAKE': actors.FakeFT, 'EVIL': actors.Evil,
                     'QUIET': actors.QuietToken})
    SP.Spec.formula = SP.Formula(fresh_formula())


def fresh_formula():
    """A second, independent copy of the formula package (no state shared with the contracts')."""
    saved = {k: v for k, v in sys.modules.items() if k == 'contracts.formula' or k.startswith('contracts.formula.')}
    parent = sys.modules['contracts']
    old = getattr(parent, 'formula', None)
    for k in saved:
        del sys.modules[k]
    try:
        import importlib
        return importlib.import_module('contracts.formula').formula
    finally:
        for k in list(sys.modules):
            if k == 'contracts.formula' or k.startswith('contracts.formula.'):
                del sys.modules[k]
        sys.modules.update(saved)
        if old is not None:
            parent.formula = old


# ---------------------------------------------------------------------------------------------- explorer
class Violation(Exception):
    def __init__(self, kind, detail, hist):
        super().__init__(detail)
        self.kind, self.detail, self.hist = kind, detail, hist


def build(sc):
    """Deploys the scenario's contracts (in lockstep); a divergence here is a violation as well."""
    load_contracts() if not _classes else None
    w = World(sc)
    hist = []
    for op in sc.setup_ops():
        hist.append(op)
        if op[0] == 'deploy':
            CLASSES(op[1])
        r, d = w.apply(op)
        if d is None and op[0] != 'q' and not r.ok:
            raise AssertionError('set-up operation refused by the model too: %s (%s)' % (show_op(op), r.err))
        if d is not None:
            raise Violation(d[0], d[1], hist)
    w.relist()
    # a query in every setup state would be redundant: compare once
    w.chain.globals.refresh()
    w.unasked = w.chain.save()
    d = w.diff()
    if d is None:
        x = sc.invariant(w)
        d = ('invariant', x) if x else None
    if d is not None:
        raise Violation(d[0], d[1], hist)
    return w, hist


def memory(state):
    """Signature of everything in a state that is not storage (attributes of contracts, classes, modules)."""
    return hash((tuple((a, g[1]) for a, g in state.sigs.items()), repr(state.glob[0]) if state.glob else None))


def spread(ops):
    """The transactions and queries reordered so that every prefix covers as many kinds as possible."""
    groups = {}
    for op in ops:
        if op[0] in ('tx', 'q', 'update', 'restart'):
            groups.setdefault((okey(op), op[2] if op[0] == 'tx' else op[1:2]), []).append(op)
    out = []
    for i in range(max(map(len, groups.values()), default=0)):
        out += [g[i] for g in groups.values() if i < len(g)]
    return out


def okey(op):
    return (op[0], op[3] if op[0] == 'tx' else op[2] if op[0] == 'q' else op[1] if op[0] == 'deploy' else '')


class Hang(BaseException):
    pass


def _hang(*a):
    raise Hang('operation used more than %d s of CPU' % OP_CPU)


OP_CPU = 30
MAX_VIOLATIONS = 3


def explore(sc, tier, part=0, nparts=1, deadline=None):
    """Returns a result dict; contract misbehaviour is recorded as a violation, never raised."""
    res = {'scenario': sc.name, 'part': part, 'nparts': nparts, 'states': 0, 'transitions': 0, 'ok': 0, 'fail': 0,
           'queries': 0, 'faults': 0, 'depth': 0, 'complete': True, 'violations': [], 'samples': [], 'events': 0,
           'outcomes': 0, 'replayed': 0, 'bound': sc.depth[tier]}
    signal.signal(signal.SIGVTALRM, _hang)
    maxd = sc.depth[tier]
    outcomes = set()

    def record(kind, detail, hist, at):
        res['violations'].append({'kind': kind, 'detail': detail, 'history': [to_json(o) for o in hist],
                                  'text': [show_op(o) for o in hist], 'at': at, 'clock': part})

    try:
        w, setup = build(sc)
    except Violation as v:
        record(v.kind, v.detail, v.hist, 'setup')
        return res
    root = w.chain.save()
    seen = {root.key}
    fz0 = w.spec.frozen()
    w0 = w.obs
    root.clock += part
    frontier = [(root, fz0, (), w0, (fz0, None))]
    leaves = []
    blind = []
    cycles = {}

    def bad(d, hist):
        record(d[0], d[1], setup + list(hist), 'step')
        return len(res['violations']) >= MAX_VIOLATIONS

    def step(state, fz, obs, hist, op):
        """Executes op from the node.  Returns (divergence, successor or None)."""
        w.chain.load(state)
        w.spec.adopt(fz)
        w.obs = obs
        res['transitions'] += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, OP_CPU)
        if op[0] == 'sweep':
            d = w.sweep(op, state, fz)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            outcomes.add(('sweep', okey(op[2]), d is None))
            return d, None
        w.ctx = sc.before_step(w, op)
        r, d = w.apply(op)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        outcomes.add((okey(op), r.ok))
        if op[0] == 'deploy':
            # an installation attempt: compared, then taken back
            d = d or w.diff()
            w.undeploy(op[2])
            return d, None
        if d is not None:
            return d, None
        s2 = None
        if w.chain.kv.d is state.kv and w.spec.icx == fz[0] and w.spec.c == fz[1]:
            s2 = w.chain.save(state)
            if s2.key != state.key and op[0] == 'tx' and not r.ok:
                d = w.diff() if sc.compare_state else None
                d = d or w.aftermath(s2, fz)
                if d is not None:
                    return d, None
                w.chain.load(s2)
                w.spec.adopt(fz)
            if s2.key == state.key and op[0] not in ('restart', 'update'):
                x = sc.step_invariant(w, op, obs, r.ok, r.ret, r.events)
                return (('invariant', x) if x else None), None
        d = w.diff()
        if d is not None and sc.compare_state:
            return d, None
        x = sc.step_invariant(w, op, obs, r.ok, r.ret, r.events) or sc.invariant(w)
        if x:
            return ('invariant', x), None
        s2 = s2 or w.chain.save(state)
        return None, (s2, w.spec.frozen(), hist + (op,), w.obs)

    stop = False
    depth = 0
    while frontier and not stop:
        nxt = []
        for state, fz, hist, obs, line in frontier:
            w.spec.adopt(fz)
            probes = [] if (depth == 0 and part) else list(sc.probe_ops(w.spec, depth))
            w.spec.adopt(fz)
            ops = list(sc.alphabet_ops(w.spec, depth)) if depth < maxd else []
            for i, op in enumerate(probes + ops):
                expand = i >= len(probes)
                if depth == 0 and expand and nparts > 1 and (i - len(probes)) % nparts != part:
                    continue
                if deadline and time.time() > deadline:
                    res['complete'] = False
                    stop = True
                    break
                d, succ = step(state, fz, obs, hist, op)
                if d is not None:
                    if bad(d, hist + (op,)):
                        stop = True
                        break
                    continue
                if not expand and succ is not None and memory(succ[0]) != memory(state):
                    f = w.followup(op, succ[0], succ[1], hist)
                    if f is not None:
                        if bad(f[0], f[1]):
                            stop = True
                            break
                        continue
                if expand and succ is not None and hist and sc.long_runs and len(cycles) < CYCLES[tier][0]:
                    cycle_of(succ, line, cycles)
                if not expand or succ is None or succ[0].key in seen:
                    continue
                seen.add(succ[0].key)
                if len(seen) > sc.max_states[tier]:
                    res['complete'] = False
                elif depth + 1 < maxd or sc.has_probes:
                    nxt.append(succ + ((succ[1], line),))
                if depth + 1 == maxd and len(seen) % 7 == 1 and len(leaves) < 60:
                    leaves.append((succ[2], succ[3]))
                if depth and len(seen) % 3 == 0 and len(blind) < BLIND[tier]:
                    blind.append((succ[2], succ[3]))
            if stop:
                break
        if not stop:
            res['depth'] = min(depth + 1, maxd)
        depth += 1
        if nxt and depth == maxd:
            pass
        frontier = nxt if depth <= maxd else []
        if not leaves:
            leaves = [(f[2], f[3]) for f in frontier[-3:]]
    if not stop and res['complete']:
        res['depth'] = maxd          # the frontier was exhausted at or before the bound
    res['states'] = len(seen)
    for k in ('ok', 'fail', 'faults', 'events'):
        res[k] = w.stats[k]
    res['queries'] = w.stats['q']
    res['outcomes'] = len(outcomes)
    res['samples'] = [[show_op(o) for o in f[0]] for f in leaves[:2]]
    if not stop and not res['violations'] and sc.long_runs:
        long_runs(sc, tier, w, (root, fz0, w0), part, nparts, deadline, res, step, bad, cycles)
    # the same histories when nobody asks anything in between
    for hist, obs in blind if not stop and not res['violations'] else ():
        w.chain.load(w.unasked)
        w.spec.adopt(fz0)
        signal.setitimer(signal.ITIMER_VIRTUAL, OP_CPU)
        d = None
        for op in hist:
            r, d = w.apply(op)
            res['transitions'] += 1
            if d is not None:
                break
        if d is None and w.observe() != obs:
            d = ('unasked', 'the same history gave a different state when nothing was asked in between')
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        res['replayed'] += 1
        if d is not None and bad((d[0], 'with no queries in between: ' + d[1]), hist):
            break
    # conformance of the snapshot/restore machinery: whole histories re-run on a fresh chain, no snapshots
    w.chain.load(root)
    if not res['violations']:
        for hist, obs in leaves[:sc.replays]:
            try:
                w2, _ = build(sc)
            except Violation as v:
                record('replay', 'set-up diverged when repeated: ' + v.detail, v.hist, 'setup')
                break
            d = None
            for op in hist:
                r, d = w2.apply(op)
                if d is not None:
                    break
            w2.relist()
            if d is None and w2.observe() != obs:
                d = ('replay', 'the same history gave a different state when repeated')
            res['replayed'] += 1
            if d is not None:
                bad(('replay', 'when the history is repeated from the start: ' + d[1]), hist)
                break
    return res


BLIND = {'quick': 150, 'thorough': 5000}                  # histories repeated without queries in between
PUMPS = {'quick': (24, 20), 'thorough': (200, 100)}       # operations, repetitions of each
ROUNDS = {'quick': 120, 'thorough': 1500}                 # length of a mixed history
CYCLES = {'quick': (16, 12), 'thorough': (150, 40)}       # cycles of the explored graph, turns of each
LAST = 12                                                 # operations and probes tried at the end of a long run


def cycle_of(succ, line, cycles):
    """The history of succ leads back to a state the model was in before: remember the cycle."""
    fz, hist = succ[1], succ[2]
    line, n = line[1], len(hist) - 2
    while line is not None:
        if line[0] == fz:
            key = (hist[n][1:3],) + tuple(sorted(str(okey(o)) for o in hist[n:]))
            if key not in cycles:
                cycles[key] = (hist[:n], hist[n:])
            return
        line, n = line[1], n - 1


def long_runs(sc, tier, w, start, part, nparts, deadline, res, step, bad, cycles):
    """Histories much longer than the depth bound, in lockstep like everything else: every operation of the alphabet
    repeated over and over, every cycle found gone round again and again, and the whole alphabet in turn (one
    rotation of it per part)."""
    root, fz0, obs0 = start
    w.chain.load(root)
    w.spec.adopt(fz0)
    ops = spread(sc.alphabet_ops(w.spec, 0))

    def walk(choose, n, once=True):
        state, fz, obs, hist = root, fz0, obs0, ()
        idle = 0
        for i in range(n):
            if deadline and time.time() > deadline:
                res['complete'] = False
                return False
            w.spec.adopt(fz)
            op = choose(i)
            if op is None:
                return True
            d, succ = step(state, fz, obs, hist, op)
            if d is not None:
                return not bad(d, hist + (op,))
            if succ is not None:
                state, fz, hist, obs = succ
                idle = 0
            else:
                idle += 1
                if idle > 1 and choose is not mixed and once:
                    break
        res['long'] = max(res.get('long', 0), len(hist))
        if choose is not mixed:
            w.spec.adopt(fz)
            last = spread(sc.alphabet_ops(w.spec, 0))[:LAST]
            w.spec.adopt(fz)
            last += spread(sc.probe_ops(w.spec, 0))[:LAST]
            for op in last:
                d, _ = step(state, fz, obs, hist, op)
                if d is not None and bad(d, hist + (op,)):
                    return False
        return True

    def mixed(i):
        depth = i % max(1, sc.depth[tier])
        now = spread(sc.alphabet_ops(w.spec, depth))
        return now[(i + part * 7) % len(now)] if now else None

    count, reps = PUMPS[tier]
    for op in ops[:count][part::nparts]:
        if op[0] == 'tx' and not walk(lambda i, op=op: op, reps):
            return
    turns = CYCLES[tier][1]
    for pre, cyc in list(cycles.values()):
        if not walk(lambda i: pre[i] if i < len(pre) else cyc[(i - len(pre)) % len(cyc)], len(pre) + turns * len(cyc), False):
            return
    res['cycles'] = len(cycles)
    walk(mixed, ROUNDS[tier])


def preload():
    """Imports everything of the code under test before workers are forked."""
    load_contracts()


def _run_scenario(self, tier, part, nparts, deadline):
    return explore(self, tier, part, nparts, deadline)


Scenario.run = _run_scenario
