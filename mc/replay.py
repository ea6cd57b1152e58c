"""Shows a counterexample again:  replay.py <evidence/replay/Cxx-n.json>

Explorations of the contracts are re-run operation by operation on a freshly deployed chain (no snapshots), real code
and reference model side by side; other cases are printed.  Exit 1 if the divergence shows again.
"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def main():
    art = json.load(open(sys.argv[1]))
    from mc import explore as X
    print('%s, scenario %s: %s: %s' % (art['property'], art['scenario'], art['kind'], art['detail']))
    X.preload()
    mod = importlib.import_module('mc.props.' + art['property'].lower())
    sc = None
    for tier in ('quick', 'thorough'):
        for s in mod.tasks(tier):
            if s.name == art['scenario'] and sc is None:
                sc = s
    if not art['history'] or not isinstance(sc, X.Scenario):
        for line in art['text']:
            print('  ' + line)
        return 1
    ops = [X.from_json(o) for o in art['history']]
    from mc.real import RealScenario, RealWorld, receipt
    if isinstance(sc, RealScenario):
        sc.refused = []
        w = RealWorld(sc)
        for op in ops:
            r = w.apply(op)
            print('  %-9s %s' % ('ok' if r.ok else 'REFUSED', X.show_op(op)))
        return 1
    w = X.World(sc)
    n = len(list(sc.setup_ops()))
    for i, op in enumerate(ops):
        if op[0] == 'sweep':
            st = w.chain.save()
            d = w.sweep(op, st, w.spec.frozen())
            print('  %s %s' % ('DIVERGES' if d else 'ok', X.show_op(op)))
        else:
            if i == n:
                w.chain.clock += art.get('clock', 0)
            if i >= n:
                w.relist()
                w.observe_before = w.observe()
                w.obs = w.observe_before
                w.ctx = sc.before_step(w, op)
            r, d = w.apply(op)
            w.relist()
            mark = 'DIVERGES' if d else ('ok' if r.ok else 'refused')
            print('  %-9s %s%s' % (mark, X.show_op(op), '   [%s]' % r.err if not r.ok else ''))
            if d is None:
                d = w.diff() if sc.compare_state or i < n else (w.diff() and None)
            if d is None and i >= n:
                x = sc.step_invariant(w, op, w.observe_before, r.ok, r.ret, r.events) or sc.invariant(w)
                d = ('invariant', x) if x else None
        if d:
            print('    -> %s: %s' % d[:2])
            return 1
    print('  no divergence')
    return 0


if __name__ == '__main__':
    sys.exit(main())
