"""C20: a converter follows registry migration and falls back safely."""
from ..worlds import *

VIEWS = ('getRegistry', 'getPreviousRegistry', 'isAllowRegistryUpdate', 'getManager', 'getOwner', 'getConversionFee',
         'isConversionsEnabled', 'isActive', 'getAddress', 'getToken', 'getConnectorTokenCount', 'getMaxConversionFee')


class Migration(Scenario):
    """One converter, three registries of different owners; eve controls one of them."""
    watch = ('owner', 'alice')
    views = VIEWS
    compare_coins = False
    max_connectors = 1
    pre = ()

    def setup(self):
        ops = [deploy('REG', 'REG1', 'owner'), deploy('REG', 'REG2', 'owner'), deploy('REG', 'REG3', 'eve'),
               deploy('NET', 'NET', 'owner'), deploy('ACT', 'ACT1', 'bob', _mode='ok')]
        ops += tok('TK1', 'IRC', 1000) + tok('FT1', 'FT', 1000)
        ops += converter('CONV1', 'FT1', 'REG1', (('TK1', 500000, 100, None),), activate=False)
        ops += [tx('owner', 'CONV1', 'transferManagement', _newManager='@mgr'), tx('mgr', 'CONV1', 'acceptManagement')]
        return ops + list(self.pre)

    def alphabet(self, M, depth):
        for a, b in (('REG1', 'REG2'), ('REG1', 'REG3'), ('REG1', 'REG1'), ('REG2', 'REG1'), ('REG2', 'REG3'),
                     ('REG1', 'NOWHERE'), ('REG1', 'ACT1')):
            yield tx('owner', a, 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@' + b)
        for b in ('REG1', 'REG2'):
            yield tx('eve', 'REG3', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@' + b)
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
        for who in ('owner', 'mgr', 'alice'):
            yield tx(who, 'CONV1', 'updateRegistry')
        for who in ('owner', 'mgr'):
            yield tx(who, 'CONV1', 'restoreRegistry')
            yield tx(who, 'CONV1', 'disableRegistryUpdate', _disable=who == 'owner')
        yield tx('owner', 'CONV1', 'disableRegistryUpdate', _disable=False)

    def probes(self, M, depth):
        for who in ('alice', 'eve', 'bob'):
            yield tx(who, 'CONV1', 'restoreRegistry')
            yield tx(who, 'CONV1', 'disableRegistryUpdate', _disable=False)
            yield tx(who, 'CONV1', 'disableRegistryUpdate', _disable=True)
            yield tx(who, 'CONV1', 'updateRegistry')
        yield tx('bob', 'ACT1', 'run', _prog=prog(('CONV1', 'updateRegistry', [], 0, True),
                                                  ('CONV1', 'restoreRegistry', [], 0, True)))
        # nothing else may change these settings
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=depth)
        yield tx('mgr', 'CONV1', 'disableConversions', _disable=True)
        yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@alice')
        yield tx('owner', 'TK1', 'transfer', _to='@CONV1', _value=1)


def tasks(tier):
    d = {'quick': 4, 'thorough': 6}
    P = {'quick': 8, 'thorough': 34}
    yield Migration('migration', depth=d, parts=P)
    chain = (tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2'),
             tx('alice', 'CONV1', 'updateRegistry'),
             tx('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG3'),
             tx('alice', 'CONV1', 'updateRegistry'))
    yield Migration('migrated-twice', depth={'quick': 3, 'thorough': 5}, parts=P, pre=chain)
    active = (tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1'), tx('owner', 'CONV1', 'acceptTokenOwnership'))
    back = (tx('mgr', 'CONV1', 'transferManagement', _newManager='@owner'), tx('owner', 'CONV1', 'acceptManagement'))
    yield Migration('one-person', depth={'quick': 3, 'thorough': 5}, parts=P, pre=back)
    yield Migration('one-person-migrated', depth={'quick': 2, 'thorough': 4}, parts=P, pre=back + chain)
    yield Migration('active', depth={'quick': 3, 'thorough': 5}, parts=P, pre=active + chain[:1])
