"""C05: ownership moves only by nomination and acceptance, on every ownable contract."""
from ..worlds import *

VIEWS = ('getOwner', 'getNewOwner')
# an owner-only call of each kind that is accepted exactly when the caller is the owner
OWNER_CALL = {
    'FT1': ('disableTransfer', dict(_disable=True)),
    'ICXT': ('withdrawTokens', dict(_token='@TK1', _to='@bob', _amount=1)),
    'REG1': ('registerAddress', dict(_scoreName='Network', _scoreAddress='@NET')),
    'NET': ('registerIcxToken', dict(_icxToken='@ICXT', _register=True)),
    'CONV1': ('disableConnectorPurchases', dict(_connectorToken='@TK1', _disable=True)),
}


class Owned(Scenario):
    """One contract of each kind; nominate / accept by everybody, towards everybody, restarts in between."""
    views = VIEWS
    compare_coins = False
    watch = ('owner', 'alice', 'bob', 'eve')
    target = 'FT1'
    deployer = 'owner'

    def setup(self):
        o = self.deployer
        ops = [deploy('NET', 'NET', o), deploy('REG', 'REG1', o)] + tok('TK1', 'IRC', 100, o) + tok('FT1', 'FT', 50, o)
        ops += tok('ICXT', 'ICXT', 0, o)
        ops += [deploy('CONV', 'CONV1', o, _token='@FT1', _registry='@REG1', _maxConversionFee=1000,
                       _connectorToken='@TK1', _connectorWeight=500000),
                deploy('ACT', 'ACT1', 'bob', _mode='ok')]
        ops += give('TK1', o, ('ACT1', 5))
        ops += [tx(o, 'TK1', 'transfer', _to='@CONV1', _value=3)]
        return ops

    def alphabet(self, M, depth):
        t = self.target
        for who in ('owner', 'alice', 'bob'):
            for new in ('owner', 'alice', 'bob', 'ACT1', 'ZERO', t):
                yield tx(who, t, 'transferOwnerShip', _newOwner='@' + new)
            yield tx(who, t, 'acceptOwnerShip')
        yield tx('bob', 'ACT1', 'run', _prog=prog((t, 'acceptOwnerShip', [], 0, True)))
        yield tx('bob', 'ACT1', 'run', _prog=prog((t, 'transferOwnerShip', ['@alice'], 0, True)))
        yield RESTART
        yield update(t, self.deployer)

    def probes(self, M, depth):
        t = self.target
        m, p = OWNER_CALL[t]
        for who in ('owner', 'alice', 'bob', 'eve'):
            yield tx(who, t, m, **p)
        for who in ('xACT1', 'cowner', 'calice', 'cbob', 'x' + t):
            yield tx(who, t, m, **p)
            yield tx(who, t, 'acceptOwnerShip')
            yield tx(who, t, 'transferOwnerShip', _newOwner='@eve')
        yield tx('owner', t, 'transferOwnerShip', _newOwner='@cowner')
        yield tx('eve', t, 'transferOwnerShip', _newOwner='@eve')
        yield tx('eve', t, 'acceptOwnerShip')
        yield tx('owner', t, 'transferOwnerShip', _newOwner='@zero')
        yield tx('owner', t, 'transferOwnerShip', _newOwner=Raw('bogus'))
        yield tx('owner', t, 'transferOwnerShip')
        yield tx('owner', t, 'acceptOwnerShip', 1)
        pr = {'FT1': (t, 'disableTransfer', [False], 0, True), 'ICXT': (t, 'withdrawTokens', ['@TK1', '@bob', 1], 0, True),
              'REG1': (t, 'unregisterAddress', ['ScoreRegistry'], 0, True),
              'NET': (t, 'registerIcxToken', ['@ICXT', True], 0, True),
              'CONV1': (t, 'disableConnectorPurchases', ['@TK1', True], 0, True)}[t]
        yield tx('bob', 'ACT1', 'run', _prog=prog(pr))

    def step_invariant(self, W, op, before, ok, ret, events):
        for c in OWNER_CALL:
            k = (A(c), 'getOwner')
            if W.obs[k] != before[k]:
                if before[(A(c), 'getNewOwner')] != W.obs[k]:
                    return 'owner of %s became an account that was not nominated' % c
                if W.o(c, 'getNewOwner') != A('ZERO'):
                    return 'nomination of %s not used up' % c
        return None


class ViaToken(Owned):
    """Several contracts whose ownership is interleaved; the converter takes over and hands back its token."""

    def alphabet(self, M, depth):
        for t in ('FT1', 'CONV1'):
            for who in ('owner', 'alice'):
                for new in ('alice', 'owner', 'CONV1', 'FT1'):
                    yield tx(who, t, 'transferOwnerShip', _newOwner='@' + new)
                yield tx(who, t, 'acceptOwnerShip')
        for who in ('owner', 'alice'):
            yield tx(who, 'CONV1', 'acceptTokenOwnership')
            for new in ('alice', 'CONV1', 'owner'):
                yield tx(who, 'CONV1', 'transferTokenOwnership', _newOwner='@' + new)
            yield tx(who, 'CONV1', 'transferManagement', _newManager='@alice')
            yield tx(who, 'CONV1', 'acceptManagement')
        yield update('CONV1', 'owner')

    def probes(self, M, depth):
        for t in ('FT1', 'CONV1', 'REG1'):
            m, p = OWNER_CALL[t]
            for who in ('owner', 'alice', 'bob'):
                yield tx(who, t, m, **p)


def tasks(tier):
    d = {'quick': 4, 'thorough': 6}
    for t in OWNER_CALL:
        yield Owned('owned-' + t, target=t, depth=d, parts={'quick': 1, 'thorough': 4})
    yield Owned('owned-deployer', target='FT1', deployer='alice', depth=d, parts=1)
    yield ViaToken('interleaved', depth={'quick': 4, 'thorough': 5}, parts={'quick': 4, 'thorough': 16})
