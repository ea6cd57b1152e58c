"""C24: contract updates and node restarts change nothing observable.

Self-comparison of the real code: in every reached state (storage, instance memory and module state) every operation
is executed three times - on the live instances, after a node restart, after an update of every contract to the same
code - and receipts and all views must be the same.
"""
from ..real import RealScenario, obs_diff, receipt
from ..chain import PACE
from ..worlds import *
from .c21 import Config as CConfig
from .c12 import Compound
from .c21 import Logged
from ..explore import spread

RULE = ('breadth first over states (storage + memory of the contract objects + module data); in every state, restart and '
        'update of every contract must leave all views as they are, and every operation of the alphabet is executed on '
        'the live contracts, after a restart and after an update of all contracts, comparing receipt and all views; '
        'transitions = operations executed; traces = whole histories re-run from deployment on contracts restarted '
        'before every operation, compared with the history without restarts')


class Restarts(RealScenario):
    max_connectors = 3
    base = None
    modes = ('live', 'restarted', 'updated')
    what = 'if the contracts are %s before'
    watch = ('owner', 'alice', 'bob', 'mgr')

    def setup(self):
        return self.base.setup_ops()

    def alphabet(self, M, depth):
        return self.base.alphabet_ops(M, depth)

    def enter(self, w, mode):
        if mode == 'restarted':
            w.apply(RESTART)
            w.chain.clock += 4 * len(PACE)      # and years later
        elif mode == 'updated':
            for a in list(w.chain.order):
                w.chain.update(a, w.chain.deployers[a])

    def alone(self, w):
        """Things that leave every view as it is."""
        return [RESTART] + [update(lab(a), lab(w.chain.deployers[a])) for a in list(w.chain.order)]

    def visit(self, w, state, obs, hist):
        return None

    def asked_after(self, w):
        return ()

    def between(self, w):
        """Before every operation of a repeated history."""
        w.apply(RESTART)

    def search(self, tier):
        res = self.res
        self.coins = self.base.coins if self.base is not None else self.coins
        w = self.make()
        ch = w.chain
        root = w.unasked
        seen = {root.key}
        frontier = [(root, w.obs, ())]
        for depth in range(self.depth[tier]):
            nxt = []
            for state, obs, hist in frontier:
                if depth or not self.part:
                    self.tick()
                    d = self.visit(w, state, obs, hist)
                    if d and self.bad('query', d[:900], hist):
                        return
                ch.load(state)
                # restart and updates alone
                for op in self.alone(w):
                    if depth == 0 and self.part:
                        break
                    ch.load(state)
                    r = w.apply(op)
                    res['transitions'] += 1
                    d = None if r.ok else '%s failed: %s' % (show_op(op), r.err)
                    got = w.observe()
                    if d is None and got != obs:
                        d = 'after %s: %s' % (show_op(op), obs_diff(got, obs))
                    if d and self.bad('state', d, hist + (op,)):
                        return
                for i, op in enumerate(self.alphabet(None, depth)):
                    if depth == 0 and i % self.nparts != self.part:
                        continue
                    if self.late():
                        return
                    runs, said = [], []
                    for mode in self.modes:
                        self.tick()
                        ch.load(state)
                        self.enter(w, mode)
                        r = w.apply(op)
                        s = ch.save(state)      # before anything is asked
                        runs.append((receipt(r), w.observe(), s, mode))
                        said.append(self.asked_after(w))
                        res['transitions'] += 1
                    r0, o0, s0, _ = runs[0]
                    for (r1, o1, s1, mode), says in zip(runs[1:], said[1:]):
                        if says != said[0]:
                            d = 'the answers afterwards differ %s: %s' % (self.what % mode, [
                                (x, y) for x, y in zip(says, said[0]) if x != y][:3])
                        elif r1 != r0:
                            d = 'the result differs %s: %s instead of %s' % (self.what % mode, r1, r0)
                        elif o1 != o0:
                            d = 'the effect differs %s: %s' % (self.what % mode, obs_diff(o1, o0))
                        else:
                            d = None
                        if d and self.bad('differs', d[:900], hist + (op,)):
                            return
                    for r1, o1, s1, mode in runs:
                        if s1.key not in seen:
                            seen.add(s1.key)
                            nxt.append((s1, o1, hist + (op,)))
            res['depth'] = depth + 1
            if not nxt:
                break
            frontier = nxt
        for state, obs, hist in frontier:
            self.tick()
            d = self.visit(w, state, obs, hist)
            if d and self.bad('query', d[:900], hist):
                return
        self.tick()
        # whole histories, every operation on freshly created contracts
        for state, obs, hist in frontier[::max(1, len(frontier) // 5)][:5]:
            w2 = self.make()
            for op in hist:
                self.between(w2)
                w2.apply(op)
            res['replayed'] += 1
            got = w2.observe()
            if got != obs:
                if self.bad('replay', 'with that before every operation: ' + obs_diff(got, obs), hist):
                    return
        self.long_run(w, root)
        res['states'] = len(seen)
        res['outcomes'] = len(seen)
        for k in ('ok', 'fail'):
            res[k] = w.stats[k]
        res['queries'] = w.stats['q']
        res['samples'] = [[show_op(o) for o in f[2]] for f in frontier[:2]]

    LONG = {'quick': 150, 'thorough': 800}

    def long_run(self, w, root):
        """The whole alphabet in turn, over and over (one rotation per part), with and without, in step."""
        ch, w2 = w.chain, self.make()
        ch.load(root)
        hist = ()
        for i in range(self.LONG[self.tier]):
            now = spread(self.alphabet(None, i % max(1, self.depth[self.tier])))
            if not now or self.late():
                return
            self.tick()
            op = now[(i + self.part * 7) % len(now)]
            hist += (op,)
            r, o = w.apply(op), w.observe()
            if i % 3 == 2:
                self.between(w2)
            r2, o2 = w2.apply(op), w2.observe()
            self.res['transitions'] += 2
            if receipt(r) != receipt(r2) or o != o2:
                d = obs_diff(o2, o) if o != o2 else '%s instead of %s' % (receipt(r2), receipt(r))
                if self.bad('long', 'with that before every third operation: ' + d[:900], hist):
                    return
                return


class Trading(Restarts):
    """Conversions only, deeper: repeated trades, failures and switches."""

    def alphabet(self, M, depth):
        for p in (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('FT1', 'FT1', 'ICXT')):
            yield convert('alice', p, 400)
        yield convert_coin('alice', ('ICXT', 'FT1', 'FT1'), 500)
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 400, minr=10 ** 9)
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=7000)
        yield tx('owner', 'CONV1', 'disableConversions', _disable=True)
        yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
        yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@TK1', _weight=500000, _enableVirtualBalance=True,
                 _virtualBalance=30000)
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=False)
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@TK2')


class Undone(Restarts):
    """Several calls in one transaction, the last of which is refused: nothing of them is remembered."""

    def alphabet(self, M, depth):
        ops = list(self.base.alphabet_ops(M, depth))
        if depth:
            ops = [op for op in ops if op[2] == A('TK1') or op[2] == A('FT1')] + ops[1::9]
        return ops


class Roles(Restarts):
    """Ownership, management and registry hand-overs away from the deployer."""
    max_connectors = 1
    coins = {'owner': 1000}

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry() + registry('REG2', None) + tok('TK1', 'IRC', 1000)
        ops += tok('FT1', 'FT', 1000) + tok('ICXT', 'ICXT', 0)
        return ops + converter('CONV1', 'FT1', 'REG1', (('TK1', 500000, 100, None),), activate=False)

    def alphabet(self, M, depth):
        for c in ('CONV1', 'NET', 'REG1', 'FT1', 'ICXT'):
            yield tx('owner', c, 'transferOwnerShip', _newOwner='@bob')
            yield tx('bob', c, 'acceptOwnerShip')
        yield tx('owner', 'CONV1', 'transferManagement', _newManager='@alice')
        yield tx('alice', 'CONV1', 'acceptManagement')
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=True)
        yield tx('owner', 'FT1', 'disableTransfer', _disable=True)
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2')
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
        yield tx('owner', 'CONV1', 'updateRegistry')
        yield tx('alice', 'CONV1', 'restoreRegistry')
        yield tx('owner', 'CONV1', 'disableConversions', _disable=True)


class Control(Restarts):
    """A token handed from one active converter to an account, to another converter and back, with trades in between."""
    max_connectors = 1
    coins = {'owner': 1000}

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry() + tok('TK1', 'IRC', 5000) + tok('FT1', 'FT', 1000)
        ops += give('TK1', 'owner', ('alice', 900)) + give('FT1', 'owner', ('alice', 300))
        ops += converter('CONV2', 'FT1', 'REG1', (('TK1', 400000, 700, None),), activate=False)
        return ops + converter('CONV1', 'FT1', 'REG1', (('TK1', 500000, 100, None),))

    def alphabet(self, M, depth):
        for c, o in (('CONV1', 'CONV2'), ('CONV2', 'CONV1')):
            for n in ('owner', o):
                yield tx('owner', c, 'transferTokenOwnership', _newOwner='@' + n)
            yield tx('owner', c, 'acceptTokenOwnership')
            yield tx('owner', c, 'withdrawTokens', _token='@TK1', _to='@owner', _amount=3)
            yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@' + c)
            yield tx('owner', 'TK1', 'transfer', _to='@' + c, _value=5)
        yield tx('owner', 'FT1', 'acceptOwnerShip')
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 90)
        yield convert('alice', ('FT1', 'FT1', 'TK1'), 40)


class Settings(Restarts):
    """Every setting at the ends of its range."""
    max_connectors = 3
    coins = {'owner': 1000, 'alice': 100}
    weight = 500000
    maxfee = 900
    static = True

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry() + registry('REG2', None) + tok('TK1', 'IRC', 1000) + tok('TK2', 'IRC', 1000)
        ops += tok('FT1', 'FT', 1000) + tok('ICXT', 'ICXT', 0) + [coin('owner', 'ICXT', 500)]
        return ops + converter('CONV1', 'FT1', 'REG1', (('TK1', self.weight, 100, None), ('TK2', PPM - self.weight, 90, 300))
                               if self.weight < PPM else (('TK1', PPM, 100, None),), maxfee=self.maxfee) + give(
            'TK1', 'owner', ('alice', 500)) + give('FT1', 'owner', ('alice', 400))

    def alphabet(self, M, depth):
        for n in sorted({0, 1, self.maxfee // 2, self.maxfee - 1, self.maxfee}):
            yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=n)
        for t in ('TK1', 'TK2'):
            for w in (1, self.weight, PPM):
                for e, v in ((True, 0), (True, 1), (True, 700), (False, 0), (False, 5)):
                    yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@' + t, _weight=w, _enableVirtualBalance=e,
                             _virtualBalance=v)
        for v in (True, False):
            for t in ('TK1', 'TK2'):
                yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@' + t, _disable=v)
            yield tx('owner', 'CONV1', 'disableConversions', _disable=v)
            yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=v)
            yield tx('owner', 'CONV1', 'disableRegistryUpdate', _disable=v)
            yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=v)
        for a in ('ZERO', 'NET', 'REG1', 'TK1', 'alice'):
            yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@' + a)
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2')
        yield tx('owner', 'CONV1', 'updateRegistry')
        for n in ('owner', 'alice', 'CONV1', 'ZERO'):
            yield tx('owner', 'CONV1', 'transferManagement', _newManager='@' + n)
            yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@' + n)
            yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@' + n)
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 30)
        yield convert('alice', ('FT1', 'FT1', 'TK1'), 400)
        yield tx('owner', 'FT1', 'transfer', _to='@alice', _value=600)


class Phase(Restarts):
    """The configuration phase: tokens asked about before and after they become connectors, funding, activation."""
    max_connectors = 3
    coins = {'owner': 1000, 'alice': 100}

    def setup(self):
        o = 'owner'
        ops = [deploy('NET', 'NET', o)] + registry() + tok('TK1', 'IRC', 1000) + tok('TK2', 'IRC', 1000)
        ops += tok('FT1', 'FT', 1000) + tok('TK3', 'QUIET', 1000)
        ops += converter('CONV1', 'FT1', 'REG1', (('TK1', 500000, 100, None),), activate=False)
        return ops + [tx(o, 'TK3', 'transfer', _to='@CONV1', _value=60), deploy('ACT', 'ACT1', 'bob', _mode='ok')]

    def alphabet(self, M, depth):
        o, c = 'owner', 'CONV1'
        for t in ('TK2', 'TK3'):
            for e in (True, False):
                yield tx(o, c, 'addConnector', _token='@' + t, _weight=200000, _enableVirtualBalance=e)
            yield tx(o, c, 'updateConnector', _connectorToken='@' + t, _weight=300000, _enableVirtualBalance=True, _virtualBalance=80)
            yield tx(o, t, 'transfer', _to='@CONV1', _value=40)
        yield tx(o, c, 'withdrawTokens', _token='@TK3', _to='@alice', _amount=10)
        yield tx(o, 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx(o, c, 'acceptTokenOwnership')
        yield tx(o, c, 'transferTokenOwnership', _newOwner='@owner')


class Tokens(Restarts):
    """Plain token life."""
    coins = {'owner': 1000, 'alice': 1000}

    def setup(self):
        return [deploy('ACT', 'ACT1', 'bob', _mode='ok')] + tok('TK1', 'IRC', 100, decimals=2) + tok(
            'FT1', 'FT', 100, decimals=1) + tok('ICXT', 'ICXT', 0) + [coin('owner', 'ICXT', 50)]
    static = True

    def alphabet(self, M, depth):
        for t in ('TK1', 'FT1', 'ICXT'):
            for to in ('alice', 'ACT1'):
                yield tx('owner', t, 'transfer', _to='@' + to, _value=20)
            yield tx('alice', t, 'transfer', _to='@owner', _value=7)
        yield tx('owner', 'FT1', 'issue', _to='@alice', _amount=5)
        yield tx('owner', 'FT1', 'destroy', _from='@owner', _amount=5)
        yield tx('alice', 'FT1', 'destroy', _from='@alice', _amount=3)
        yield tx('owner', 'FT1', 'disableTransfer', _disable=True)
        yield tx('owner', 'FT1', 'disableTransfer', _disable=False)
        yield coin('alice', 'ICXT', 9)
        yield tx('alice', 'ICXT', 'withdraw', _amount=4)
        yield tx('owner', 'ICXT', 'withdrawTo', _amount=4, _to='@alice')


def tasks(tier):
    d = {'quick': 2, 'thorough': 3}
    v3 = (('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, None))
    yield Restarts('market', base=Logged('b'), depth=d)
    yield Restarts('market-virtual', base=Logged('b', conns=v3), depth={'quick': 1, 'thorough': 2})
    yield Restarts('configuration', base=CConfig('b'), depth=d)
    yield Trading('trading', base=Logged('b', conns=v3), depth={'quick': 3, 'thorough': 5})
    yield Undone('undone', base=Compound('b'), depth=d, parts={'quick': 2, 'thorough': 8})
    yield Roles('roles', depth={'quick': 3, 'thorough': 5})
    yield Control('control', depth={'quick': 3, 'thorough': 5})
    yield Settings('settings', depth=d)
    yield Settings('settings-full', weight=PPM, maxfee=PPM, depth=d)
    yield Settings('settings-none', weight=1, maxfee=0, depth={'quick': 1, 'thorough': 3})
    yield Phase('phase', depth={'quick': 3, 'thorough': 5})
    yield Tokens('tokens', depth={'quick': 3, 'thorough': 5})
