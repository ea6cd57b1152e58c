"""Explorations that compare the real code with itself (no reference model involved)."""
import signal
import time

from . import explore as X
from .cases import Hang, _hang
from .explore import A, NAMES, Scenario, lab, show, show_op


class RealWorld(X.World):
    """The real chain alone."""

    def apply(self, op):
        k, ch = op[0], self.chain
        self.stats['tx'] += 1
        if k == 'tx':
            r = ch.tx(op[1], op[2], op[3], op[4], op[5])
        elif k == 'deploy':
            r = ch.deploy(X.CLASSES(op[1]), op[2], op[3], op[4])
            if r.ok:
                self.kinds[op[2]] = op[1]
                self.relist()
        elif k == 'update':
            r = ch.update(op[1], op[2])
        elif k == 'restart':
            r = ch.restart()
        elif k == 'q':
            ok, v = ch.query(op[1], op[2], op[3], True)
            r = X.CH.Result(ok, v)
        else:
            raise ValueError(op)
        self.stats['ok' if r.ok else 'fail'] += 1
        return r


def receipt(r):
    """What a user sees of a transaction."""
    return (r.ok, show(r.ret) if r.ok else None,
            tuple((lab(e.score_address), show(tuple(e.indexed)), show(tuple(e.data))) for e in r.events))


class RealScenario(Scenario):
    """Base of the self-comparing scenarios; `search(res, ...)` does the work."""
    parts = {'quick': 8, 'thorough': 8}

    def setup(self):
        return []

    def make(self, ops=None):
        w = RealWorld(self)
        if not X._classes:
            X.load_contracts()
        for op in self.setup_ops() if ops is None else ops:
            r = w.apply(op)
            if not r.ok and op[0] != 'q':
                self.refused.append('%s refused: %s' % (show_op(op), r.err))
        w.relist()
        w.chain.globals.refresh()
        w.unasked = w.chain.save()
        w.obs = w.observe()
        return w

    def run(self, tier, part, nparts, deadline):
        self.tier, self.part, self.nparts, self.deadline = tier, part, nparts, deadline
        self.refused = []
        self.res = res = {
            'scenario': self.name, 'part': part, 'nparts': nparts, 'states': 0, 'transitions': 0, 'ok': 0, 'fail': 0,
            'queries': 0, 'faults': 0, 'depth': 0, 'complete': True, 'violations': [], 'samples': [], 'events': 0,
            'outcomes': 0, 'replayed': 0, 'bound': self.depth[tier] if isinstance(self.depth, dict) else 1}
        signal.signal(signal.SIGVTALRM, _hang)
        try:
            self.search(tier)
        except Hang as h:
            self.bad('hang', str(h), ())
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return res

    def tick(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, X.OP_CPU)

    def late(self):
        if self.deadline and time.time() > self.deadline:
            self.res['complete'] = False
            return True
        return False

    def bad(self, kind, detail, hist):
        self.res['violations'].append({'kind': kind, 'detail': detail, 'history': [X.to_json(o) for o in hist],
                                       'text': [show_op(o) for o in hist], 'at': 'step'})
        return len(self.res['violations']) >= X.MAX_VIOLATIONS


def obs_diff(got, want, names=None):
    out = []
    for k in want:
        if got.get(k, '<missing>') != want[k]:
            out.append('%s.%s(%s) = %s, before %s' % (lab(k[0]), k[1], ', '.join(show(x) for x in k[2:]),
                                                     show(got.get(k)), show(want[k])))
    return '; '.join(out[:5])
