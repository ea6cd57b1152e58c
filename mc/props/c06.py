"""C06: converter management moves only by nomination and acceptance."""
from ..worlds import *

VIEWS = ('getManager', 'getNewManager', 'getOwner', 'getNewOwner', 'getConversionFee', 'isConversionsEnabled',
         'isAllowRegistryUpdate', 'getRegistry', 'balanceOf')
WHO = ('owner', 'alice', 'bob', 'eve')


class Managed(Scenario):
    views = VIEWS
    compare_coins = False
    watch = WHO + ('xACT1',)
    deployer = 'owner'
    owner_moves = False
    activate = False
    manager = None
    heir = None              # account the ownership is handed over to in the setup

    def setup(self):
        o = self.deployer
        ops = [deploy('NET', 'NET', o)] + registry('REG1', 'NET', o) + tok('TK1', 'IRC', 1000, o) + tok('FT1', 'FT', 50, o)
        ops += [deploy('CONV', 'CONV1', o, _token='@FT1', _registry='@REG1', _maxConversionFee=1000,
                       _connectorToken='@TK1', _connectorWeight=500000),
                deploy('ACT', 'ACT1', 'bob', _mode='ok')]
        ops += give('TK1', o, *[(w, 10) for w in WHO + ('ACT1', 'xACT1') if w != o])
        if self.activate:
            ops += [tx(o, 'FT1', 'transferOwnerShip', _newOwner='@CONV1'), tx(o, 'CONV1', 'acceptTokenOwnership')]
        if self.manager:
            ops += [tx(o, 'CONV1', 'transferManagement', _newManager='@' + self.manager),
                    tx(self.manager, 'CONV1', 'acceptManagement')]
        if self.heir:
            ops += [tx(o, 'CONV1', 'transferOwnerShip', _newOwner='@' + self.heir), tx(self.heir, 'CONV1', 'acceptOwnerShip')]
        return ops

    def alphabet(self, M, depth):
        t = 'CONV1'
        for who in WHO[:3]:
            for new in ('owner', 'alice', 'bob', 'ACT1', 'ZERO', 'CONV1'):
                yield tx(who, t, 'transferManagement', _newManager='@' + new)
            yield tx(who, t, 'acceptManagement')
            if self.owner_moves:
                yield tx(who, t, 'transferOwnerShip', _newOwner='@alice')
                yield tx(who, t, 'transferOwnerShip', _newOwner='@bob')
                yield tx(who, t, 'acceptOwnerShip')
        yield tx('bob', 'ACT1', 'run', _prog=prog((t, 'acceptManagement', [], 0, True)))
        yield tx('bob', 'ACT1', 'run', _prog=prog((t, 'transferManagement', ['@alice'], 0, True)))
        yield update(t, self.deployer)

    def probes(self, M, depth):
        t = 'CONV1'
        for who in WHO:
            yield tx(who, t, 'setConversionFee', _conversionFee=7)
            yield tx(who, t, 'disableConversions', _disable=True)
            yield tx(who, t, 'disableRegistryUpdate', _disable=True)
            yield tx(who, t, 'restoreRegistry')
            if depth <= 1:
                yield tx(who, t, 'updateRegistry')
                yield tx(who, t, 'disableRegistryUpdate', _disable=False)
                yield tx(who, t, 'disableConversions', _disable=False)
                yield tx(who, t, 'setConversionFee', _conversionFee=0)
                yield tx(who, t, 'disableTokenTransfers', _disable=True)
                yield tx(who, t, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
                yield tx(who, t, 'addConnector', _token='@ACT1', _weight=1, _enableVirtualBalance=False)
                yield tx(who, t, 'withdrawTokens', _token='@TK1', _to='@' + who, _amount=1)
            yield tx(who, t, 'addConnector', _token='@NOWHERE', _weight=1, _enableVirtualBalance=False)
            if not self.activate:
                # only owner and manager may fund an inactive converter
                yield tx(who, 'TK1', 'transfer', _to='@CONV1', _value=2)
            yield tx(who, t, 'transferManagement', _newManager='@eve')
            yield tx(who, t, 'acceptManagement')
        for who in ('xACT1', 'cowner', 'calice', 'cbob', 'xCONV1'):
            yield tx(who, t, 'setConversionFee', _conversionFee=7)
            yield tx(who, t, 'disableRegistryUpdate', _disable=True)
            yield tx(who, t, 'transferManagement', _newManager='@eve')
            yield tx(who, t, 'acceptManagement')
        if not self.activate:
            yield tx('xACT1', 'TK1', 'transfer', _to='@CONV1', _value=2)
        yield tx('owner', t, 'transferManagement', _newManager='@cowner')
        yield tx('eve', t, 'acceptOwnerShip')
        yield tx('owner', t, 'transferManagement', _newManager=Raw('nobody'))
        yield tx('bob', 'ACT1', 'run', _prog=prog((t, 'setConversionFee', [9], 0, True),
                                                  ('TK1', 'transfer', ['@CONV1', 1], 0, True)))

    def step_invariant(self, W, op, before, ok, ret, events):
        k = (A('CONV1'), 'getManager')
        if W.obs[k] != before[k] and before[(A('CONV1'), 'getNewManager')] != W.obs[k]:
            return 'manager became an account that was not nominated'
        if W.obs[k] != before[k] and W.o('CONV1', 'getNewManager') != A('ZERO'):
            return 'nomination not used up'
        return None

    def invariant(self, W):
        m = W.o('CONV1', 'getManager')
        return None if m is not None else 'converter without a manager'


class Roles(Managed):
    """Every state the two roles and their nominations can get into together."""
    compare_coins = False
    owner_moves = True

    def alphabet(self, M, depth):
        t = 'CONV1'
        for who in WHO[:3]:
            for new in WHO[:3] + ('ZERO',):
                yield tx(who, t, 'transferManagement', _newManager='@' + new)
                yield tx(who, t, 'transferOwnerShip', _newOwner='@' + new)
            yield tx(who, t, 'acceptManagement')
            yield tx(who, t, 'acceptOwnerShip')

    def probes(self, M, depth):
        for who in WHO:
            yield tx(who, 'CONV1', 'setConversionFee', _conversionFee=7)
            yield tx(who, 'CONV1', 'disableConversions', _disable=True)


def tasks(tier):
    yield Roles('roles', depth={'quick': 5, 'thorough': 12}, parts={'quick': 4, 'thorough': 8})
    d = {'quick': 3, 'thorough': 5}
    yield Managed('managed', depth=d, parts={'quick': 2, 'thorough': 8})
    yield Managed('managed-active', depth=d, activate=True, parts={'quick': 2, 'thorough': 8})
    yield Managed('managed-by-other', depth=d, deployer='alice', parts={'quick': 2, 'thorough': 8})
    yield Managed('both-roles', depth={'quick': 3, 'thorough': 4}, owner_moves=True, parts={'quick': 4, 'thorough': 16})
    for a in (False, True):
        yield Managed('handed-over' + '-active' * a, depth={'quick': 2, 'thorough': 4}, manager='alice', heir='bob', activate=a,
                      owner_moves=True, parts={'quick': 1, 'thorough': 8})
        yield Managed('handed-over-to-one' + '-active' * a, depth={'quick': 1, 'thorough': 4}, manager='bob', heir='bob', activate=a,
                      owner_moves=True, parts={'quick': 1, 'thorough': 8})
    yield Managed('managed-apart', depth=d, manager='alice', parts={'quick': 2, 'thorough': 8})
