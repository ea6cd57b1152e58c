"""Exhaustive enumeration tasks that are not chain explorations (formula, packages, proxies, processes)."""
import signal
import time
import traceback

import re

from .explore import Hang, _hang, MAX_VIOLATIONS

_CODE = re.compile(r'File "[^"]*/(contracts|contract_generator)/[^"]*\.py"|File "[^"]*/build\.py"')


def blames_code(text):
    """Does a traceback pass through the code under test (rather than stop in the machinery)?"""
    return bool(_CODE.search(text))


class Cases(object):
    """Enumerates every case of a bounded space; `check(case)` returns None or (kind, detail[, signature])."""
    parts = {'quick': 1, 'thorough': 8}
    cpu = 60

    def __init__(self, name, **kw):
        self.name = name
        for k, v in kw.items():
            setattr(self, k, v)

    def prepare(self, tier):
        pass

    def cases(self, tier):
        return ()

    def check(self, case):
        return None

    def describe(self, case):
        return str(case)

    def finish(self):
        pass

    def run(self, tier, part, nparts, deadline):
        res = {'scenario': self.name, 'part': part, 'nparts': nparts, 'states': 0, 'transitions': 0, 'ok': 0,
               'fail': 0, 'queries': 0, 'faults': 0, 'depth': 1, 'bound': 1, 'complete': True, 'violations': [],
               'samples': [], 'events': 0, 'outcomes': 0, 'replayed': 0}
        self.res = res
        self.outcomes = set()
        signal.signal(signal.SIGVTALRM, _hang)
        per = {}
        self.prepare(tier)
        try:
            for i, c in enumerate(self.cases(tier)):
                if i % nparts != part:
                    continue
                if deadline and time.time() > deadline:
                    res['complete'] = False
                    break
                signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu)
                try:
                    d = self.check(c)
                    if i % 23 == 0 and d is None:
                        # the same case once more: the verdict must not depend on what ran before
                        res['replayed'] += 1
                        d = self.check(c)
                except Hang as h:
                    d = ('hang', str(h))
                except (KeyboardInterrupt, SystemExit, MemoryError):
                    raise
                except BaseException:
                    t = traceback.format_exc()
                    if not blames_code(t):
                        raise
                    d = ('error', 'unexpected failure: ' + t[-700:])
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                res['states'] += 1
                if len(res['samples']) < 2 or (i < 5000 and i % 997 == part):
                    res['samples'] = (res['samples'] + [[self.describe(c)[:300]]])[-3:]
                if d is None:
                    continue
                sig = d[2] if len(d) > 2 else None
                per[sig] = per.get(sig, 0) + 1
                if per[sig] > MAX_VIOLATIONS:
                    continue
                res['violations'].append({'kind': d[0], 'detail': d[1], 'history': [], 'case': self.describe(c),
                                          'text': [self.describe(c)], 'at': 'case', 'signature': sig})
                if sig is None and per[sig] >= MAX_VIOLATIONS:
                    break
        finally:
            self.finish()
        res['outcomes'] = len(self.outcomes)
        return res
