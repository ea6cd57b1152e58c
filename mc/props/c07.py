"""C07: administrative calls have no effect for unauthorised callers (the whole method x caller matrix)."""
from ..real import RealScenario, obs_diff
from ..surface import entries, grid
from ..worlds import *

CALLERS = ('owner', 'mgr', 'alice', 'bob', 'eve')
# the contracts of the exchange themselves have no standing either (whatever makes one of them call)
CONTRACTS = ('FT1', 'CONV1', 'NET', 'REG1', 'TK1', 'ICXT', 'REG2')
# nor the accounts and contracts whose address has the same body as that of somebody who has
TWINS = ('cowner', 'cmgr', 'xFT1', 'xCONV1', 'xNET', 'xREG1', 'xTK1', 'xICXT')
VIEWS = ('getOwner', 'getNewOwner', 'getManager', 'getNewManager', 'balanceOf', 'totalSupply', 'getConnector',
         'getConnectorTokenCount', 'getConnectorAt', 'getConversionFee', 'isConversionsEnabled', 'getRegistry',
         'getPreviousRegistry', 'isAllowRegistryUpdate', 'getAddress', 'getIcxTokenRegistered',
         'getTransferPossibility', 'isActive', 'getToken', 'getMaxConversionFee')


def admin(who):
    c = 'CONV1'
    yield tx(who, c, 'addConnector', _token='@TK2', _weight=1000, _enableVirtualBalance=False)
    yield tx(who, c, 'updateConnector', _connectorToken='@TK1', _weight=499999, _enableVirtualBalance=True,
             _virtualBalance=5)
    yield tx(who, c, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
    yield tx(who, c, 'updateRegistry')
    yield tx(who, c, 'restoreRegistry')
    yield tx(who, c, 'disableRegistryUpdate', _disable=True)
    yield tx(who, c, 'disableConversions', _disable=True)
    yield tx(who, c, 'setConversionFee', _conversionFee=5)
    yield tx(who, c, 'transferTokenOwnership', _newOwner='@' + who)
    yield tx(who, c, 'acceptTokenOwnership')
    yield tx(who, c, 'disableTokenTransfers', _disable=True)
    yield tx(who, c, 'withdrawFromToken', _token='@TK2', _to='@' + who, _amount=1)
    yield tx(who, c, 'withdrawTokens', _token='@TK1', _to='@' + who, _amount=1)
    yield tx(who, c, 'withdrawTokens', _token='@TK2', _to='@' + who, _amount=1)
    yield tx(who, c, 'transferOwnerShip', _newOwner='@' + who)
    yield tx(who, c, 'acceptOwnerShip')
    yield tx(who, c, 'transferManagement', _newManager='@' + who)
    yield tx(who, c, 'acceptManagement')
    yield tx(who, c, 'tokenFallback', _from='@' + who, _value=5, _data=convdata(['TK1', 'FT1', 'FT1'], 1))
    yield tx(who, c, 'tokenFallback', _from='@NET', _value=5, _data=b'{"toToken": "%s", "minReturn": 1}'
             % str(A('TK1')).encode())
    yield tx(who, 'NET', 'registerIcxToken', _icxToken='@TK1', _register=True)
    yield tx(who, 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=False)
    for reg in (True, False):
        yield tx(who, 'NET', 'registerIcxToken', _icxToken='@' + who, _register=reg)
    yield tx(who, 'NET', 'withdrawTokens', _token='@TK2', _to='@' + who, _amount=1)
    yield tx(who, 'NET', 'transferOwnerShip', _newOwner='@' + who)
    yield tx(who, 'NET', 'acceptOwnerShip')
    yield tx(who, 'NET', 'tokenFallback', _from='@' + who, _value=5, _data=convdata(['TK1', 'FT1', 'FT1'], 1))
    yield tx(who, 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@TK1')
    yield tx(who, 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2')
    yield tx(who, 'REG1', 'unregisterAddress', _scoreName='Network')
    yield tx(who, 'REG1', 'transferOwnerShip', _newOwner='@' + who)
    yield tx(who, 'REG1', 'acceptOwnerShip')
    for t in ('FT1', 'ICXT'):
        yield tx(who, t, 'withdrawTokens', _token='@TK2', _to='@' + who, _amount=1)
        yield tx(who, t, 'transferOwnerShip', _newOwner='@' + who)
        yield tx(who, t, 'acceptOwnerShip')
    yield tx(who, 'FT1', 'issue', _to='@' + who, _amount=9)
    yield tx(who, 'FT1', 'destroy', _from='@owner', _amount=1)
    yield tx(who, 'FT1', 'disableTransfer', _disable=True)
    # internal lifecycle functions and guards are not callable from outside
    for t in ('FT1', 'CONV1', 'NET', 'REG1', 'ICXT'):
        for m in ('on_install', 'on_update', 'require_owner_only', 'require_manager_only',
                  'require_owner_or_manager_only', 'get_purchase_return', '_convert', '_transfer', 'fallback',
                  '_convert_for_internal', '_deposit'):
            if who == 'eve':
                yield tx(who, t, m)


def same(who):
    """Calls that would leave everything as it is."""
    c = 'CONV1'
    yield tx(who, c, 'disableConversions', _disable=False)
    yield tx(who, c, 'disableTokenTransfers', _disable=False)
    yield tx(who, c, 'disableRegistryUpdate', _disable=False)
    yield tx(who, c, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=False)
    yield tx(who, c, 'setConversionFee', _conversionFee=0)
    yield tx(who, c, 'updateConnector', _connectorToken='@TK1', _weight=500000, _enableVirtualBalance=False, _virtualBalance=0)
    yield tx(who, c, 'withdrawTokens', _token='@TK1', _to='@' + who, _amount=0)
    yield tx(who, c, 'withdrawFromToken', _token='@TK2', _to='@' + who, _amount=0)
    yield tx(who, c, 'transferTokenOwnership', _newOwner='@owner')
    yield tx(who, c, 'transferOwnerShip', _newOwner='@owner')
    yield tx(who, c, 'transferManagement', _newManager='@mgr')
    yield tx(who, 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=True)
    yield tx(who, 'NET', 'registerIcxToken', _icxToken='@TK1', _register=False)
    yield tx(who, 'NET', 'withdrawTokens', _token='@TK2', _to='@' + who, _amount=0)
    yield tx(who, 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@NET')
    yield tx(who, 'REG2', 'unregisterAddress', _scoreName='Network')
    yield tx(who, 'FT1', 'disableTransfer', _disable=False)
    yield tx(who, 'FT1', 'issue', _to='@' + who, _amount=0)
    yield tx(who, 'FT1', 'destroy', _from='@owner', _amount=0)
    yield tx(who, 'FT1', 'destroy', _from='@alice', _amount=0)


def relay(target, method, args, who='bob'):
    return tx(who, 'ACT1', 'run', _prog=prog((target, method, args, 0, True)))


def relayed(op, who):
    """The same call made by a contract of somebody else, in a transaction of `who`."""
    return relay(LABELS[op[2]], op[3], list(op[4].values()), who)


LABELS = {A(x): x for x in ('TK1', 'TK2', 'ICXT', 'FT1', 'CONV1', 'NET', 'REG1', 'REG2', 'ACT1')}


class Matrix(Scenario):
    """Every administrative method by every caller in every role and activation state."""
    views = VIEWS
    compare_coins = False
    watch = CALLERS
    coins = {'owner': 100}
    max_connectors = 3

    def setup(self):
        o = 'owner'
        ops = [deploy('NET', 'NET', o)] + registry() + [deploy('REG', 'REG2', o)]
        ops += tok('TK1', 'IRC', 10 ** 6) + tok('TK2', 'IRC', 1000) + tok('ICXT', 'ICXT', 0) + [coin(o, 'ICXT', 50)]
        ops += [tx(o, 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=True)]
        ops += tok('FT1', 'FT', 1000)
        ops += [deploy('CONV', 'CONV1', o, _token='@FT1', _registry='@REG1', _maxConversionFee=1000,
                       _connectorToken='@TK1', _connectorWeight=500000),
                tx(o, 'TK1', 'transfer', _to='@CONV1', _value=500),
                deploy('ACT', 'ACT1', 'bob', _mode='ok')]
        ops += [tx(o, 'CONV1', 'transferManagement', _newManager='@mgr'), tx('mgr', 'CONV1', 'acceptManagement'),
                tx(o, 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2')]
        return ops

    def alphabet(self, M, depth):
        # role and activation changes
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@alice')
        for t in ('CONV1', 'NET', 'REG1', 'FT1', 'ICXT'):
            yield tx('owner', t, 'transferOwnerShip', _newOwner='@alice')
            yield tx('alice', t, 'acceptOwnerShip')
        yield tx('mgr', 'CONV1', 'transferManagement', _newManager='@bob')
        yield tx('bob', 'CONV1', 'acceptManagement')
        yield tx('mgr', 'CONV1', 'disableRegistryUpdate', _disable=True)
        yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@ACT1')
        yield relay('CONV1', 'acceptOwnerShip', [])
        yield update('CONV1', 'owner')

    def probes(self, M, depth):
        for who in CALLERS:
            for op in admin(who):
                yield op
        if depth <= 1:
            for who in CALLERS:
                for op in same(who):
                    yield op
        if depth == 0:
            # the owner (or the manager) sends the transaction, a contract that is neither makes the call
            for who in ('owner', 'mgr'):
                for op in list(admin('ACT1')) + list(same('ACT1')):
                    yield relayed(op, who)
            for who in CONTRACTS + TWINS:
                for op in admin(who):
                    # tokens report deposits through tokenFallback: that is theirs to call
                    if op[3] != 'tokenFallback' or who in TWINS:
                        yield op
        for t, m, a in (('CONV1', 'setConversionFee', [5]), ('CONV1', 'updateConnector', ['@TK1', 1, True, 1]),
                        ('CONV1', 'disableConversions', [True]), ('CONV1', 'transferTokenOwnership', ['@bob']),
                        ('FT1', 'issue', ['@bob', 5]), ('FT1', 'destroy', ['@owner', 5]),
                        ('NET', 'registerIcxToken', ['@TK1', True]), ('NET', 'registerIcxToken', ['@ACT1', False]),
                        ('NET', 'registerIcxToken', ['@ACT1', True]), ('REG1', 'registerAddress', ['Network', '@ACT1']),
                        ('CONV1', 'addConnector', ['@ACT1', 5, False]), ('REG1', 'unregisterAddress', ['Network']),
                        ('CONV1', 'tokenFallback', ['@NET', 5, b'x']),
                        ('NET', 'tokenFallback', ['@bob', 5, b'conversionResult'])):
            yield relay(t, m, a)


class Settled(Matrix):
    """Every setting away from its initial value; every caller tries every value of every setting."""
    active = True

    def setup(self):
        ops = Matrix.setup(self)
        ops += [tx('owner', 'CONV1', 'addConnector', _token='@TK2', _weight=200000, _enableVirtualBalance=False),
                tx('owner', 'TK2', 'transfer', _to='@CONV1', _value=100)]
        if self.active:
            ops += [tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1'), tx('owner', 'CONV1', 'acceptTokenOwnership')]
        return ops

    def alphabet(self, M, depth):
        o, c = 'owner', 'CONV1'
        if depth == 0:
            yield tx(o, c, 'setConversionFee', _conversionFee=50)
            return
        if depth == 1:
            yield tx('mgr', c, 'disableConversions', _disable=True)
            yield tx(o, c, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
            yield tx(o, c, 'updateConnector', _connectorToken='@TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=700)
            yield tx(o, c, 'disableTokenTransfers' if self.active else 'disableRegistryUpdate', _disable=True)
            yield tx('mgr', c, 'disableRegistryUpdate', _disable=True)
            yield tx('eve', c, 'updateRegistry')
            yield tx(o, c, 'transferOwnerShip', _newOwner='@alice')
            yield tx(o, 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=False)
            yield tx(o, 'REG1', 'unregisterAddress', _scoreName='Network')
            return
        yield tx(o, c, 'setConversionFee', _conversionFee=1000)
        yield tx('mgr', c, 'setConversionFee', _conversionFee=0)

    def probes(self, M, depth):
        c = 'CONV1'
        for who in CALLERS + ('TK1', 'NET', 'FT1', 'REG1'):
            for n in (0, 1, 49, 50, 51, 1000):
                yield tx(who, c, 'setConversionFee', _conversionFee=n)
            for v in (True, False):
                yield tx(who, c, 'disableConversions', _disable=v)
                yield tx(who, c, 'disableTokenTransfers', _disable=v)
                yield tx(who, c, 'disableRegistryUpdate', _disable=v)
                yield tx(who, 'FT1', 'disableTransfer', _disable=v)
                for t in ('TK1', 'TK2'):
                    yield tx(who, c, 'disableConnectorPurchases', _connectorToken='@' + t, _disable=v)
            for t in ('TK1', 'TK2'):
                for w in (1, 200000, 500000):
                    for e, n in ((True, 700), (True, 800), (True, 1), (False, 0)):
                        yield tx(who, c, 'updateConnector', _connectorToken='@' + t, _weight=w, _enableVirtualBalance=e, _virtualBalance=n)
            yield tx(who, c, 'updateRegistry')
            yield tx(who, c, 'restoreRegistry')
            for t in ('ICXT', 'TK1', 'NOWHERE'):
                for v in (True, False):
                    yield tx(who, 'NET', 'registerIcxToken', _icxToken='@' + t, _register=v)
            for n in ('Network', 'ScoreRegistry', 'Other'):
                for a in ('NET', 'REG2', 'NOWHERE', 'ZERO'):
                    yield tx(who, 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='@' + a)
                yield tx(who, 'REG1', 'unregisterAddress', _scoreName=n)
            yield tx(who, c, 'withdrawTokens', _token='@TK1', _to='@owner', _amount=1)
            yield tx(who, c, 'withdrawFromToken', _token='@TK1', _to='@owner', _amount=1)
            yield tx(who, c, 'transferTokenOwnership', _newOwner='@owner')
            for t in (c, 'FT1', 'NET', 'REG1', 'ICXT'):
                yield tx(who, t, 'transferOwnerShip', _newOwner='@owner')
                yield tx(who, t, 'transferOwnerShip', _newOwner='@ZERO')
            yield tx(who, c, 'transferManagement', _newManager='@owner')
            yield tx(who, c, 'transferManagement', _newManager='@ZERO')


class Held(Matrix):
    """The roles held by a contract, or all by one person, with hand-overs pending everywhere."""
    HELD = ('CONV1', 'NET', 'REG1', 'FT1', 'ICXT')
    holder, nominee, manager = 'ACT1', 'alice', 'mgr'

    def setup(self):
        ops = Matrix.setup(self)
        ops += [tx('owner', 'TK2', 'transfer', _to='@' + c, _value=30, _data=b'conversionResult') for c in ('NET',)]
        h = self.holder
        if h != 'owner':
            for t in self.HELD:
                ops += [tx('owner', t, 'transferOwnerShip', _newOwner='@' + h),
                        relay(t, 'acceptOwnerShip', []) if h == 'ACT1' else tx(h, t, 'acceptOwnerShip')]
        if self.manager != 'mgr':
            ops += [tx('mgr', 'CONV1', 'transferManagement', _newManager='@' + self.manager),
                    relay('CONV1', 'acceptManagement', []) if self.manager == 'ACT1' else tx(self.manager, 'CONV1', 'acceptManagement')]
        for t in self.HELD if self.nominee else ():
            ops += [relay(t, 'transferOwnerShip', ['@' + self.nominee]) if h == 'ACT1' else
                    tx(h, t, 'transferOwnerShip', _newOwner='@' + self.nominee)]
        if self.nominee:
            m = self.manager
            ops += [relay('CONV1', 'transferManagement', ['@' + self.nominee]) if m == 'ACT1' else
                    tx(m, 'CONV1', 'transferManagement', _newManager='@' + self.nominee)]
        return ops

    def alphabet(self, M, depth):
        for t in self.HELD:
            yield tx('alice', t, 'acceptOwnerShip')
            yield relay(t, 'acceptOwnerShip', [])
            yield relay(t, 'transferOwnerShip', ['@eve'])
        yield tx('alice', 'CONV1', 'acceptManagement')
        yield relay('CONV1', 'transferManagement', ['@eve'])


class Powerless(RealScenario):
    """Every entry point the contracts really have, whatever its name, called by accounts without role, tokens or
    coins, with every combination of typical arguments: no view of any contract changes."""
    parts = 4
    depth = {'quick': 1, 'thorough': 1}
    static = True
    watch = CALLERS + ('carol',)
    max_connectors = 3
    coins = {'owner': 1000}
    active = True
    extra = ()

    def setup(self):
        o = 'owner'
        ops = Matrix.setup(self)[:-1] + [tx(o, 'CONV1', 'addConnector', _token='@ICXT', _weight=200000, _enableVirtualBalance=True),
               tx(o, 'CONV1', 'updateConnector', _connectorToken='@ICXT', _weight=200000, _enableVirtualBalance=True, _virtualBalance=50),
               tx(o, 'CONV1', 'setConversionFee', _conversionFee=300), deploy('ACT', 'ACT2', 'carol', _mode='ok')]
        ops += [tx(o, t, 'transfer', _to='@NET', _value=7, _data=b'conversionResult') for t in ('TK1', 'FT1', 'ICXT')]
        if self.active:
            ops += [tx(o, 'FT1', 'transferOwnerShip', _newOwner='@CONV1'), tx(o, 'CONV1', 'acceptTokenOwnership')]
        return ops + list(self.extra)

    def search(self, tier):
        res = self.res
        w = self.make()
        ch = w.chain
        root = ch.save()
        before = w.obs
        values = {'Address': [A(x) for x in ('carol', 'owner', 'TK1', 'FT1', 'CONV1', 'NET', 'ACT2', 'ICXT', 'REG2', 'ZERO', 'mgr')],
                  'int': [1, 0, 7, -1, 200000], 'bool': [True, False],
                  'str': ['Network', 'ScoreRegistry', path('TK1', 'FT1', 'FT1'), path('ICXT', 'FT1', 'TK1'), 'x', ''],
                  'bytes': [b'conversionResult', convdata(['TK1', 'FT1', 'FT1'], 1), b'x',
                            b'{"toToken": "%s", "minReturn": 1}' % str(A('TK1')).encode()]}
        n = 0
        for a, m, params in entries(ch, False):
            if a not in LABELS or LABELS[a] == 'ACT1':
                continue
            for p in grid(params, values):
                n += 1
                if n % self.nparts != self.part:
                    continue
                for who in ('carol', 'ACT2'):
                    self.tick()
                    ch.load(root)
                    op = ('tx', A(who), a, m, p, 0)
                    r = w.apply(op)
                    res['transitions'] += 1
                    if ch.kv.d is root.kv:
                        continue
                    got = w.observe()
                    if got != before and self.bad('powerless', 'an account without any role or funds changed something: ' +
                                                  obs_diff(got, before), [op]):
                        return
        res['states'] = res['outcomes'] = 1
        res['depth'] = 1
        for k in ('ok', 'fail'):
            res[k] = w.stats[k]
        res['queries'] = w.stats['q']


def tasks(tier):
    for a in (True, False):
        yield Powerless('powerless' + '-inactive' * (not a), active=a)
    yield Powerless('powerless-handed-over', extra=tuple(
        x for t in ('CONV1', 'NET', 'REG1', 'ICXT') for x in (tx('owner', t, 'transferOwnerShip', _newOwner='@alice'),
                                                            tx('alice', t, 'acceptOwnerShip')))
        + (tx('mgr', 'CONV1', 'transferManagement', _newManager='@bob'), tx('bob', 'CONV1', 'acceptManagement')))
    for a in (True, False):
        yield Settled('settled' + '-inactive' * (not a), active=a, depth={'quick': 2, 'thorough': 4}, parts={'quick': 1, 'thorough': 4})
    for name, h, n, m in (('contract-owner', 'ACT1', 'alice', 'mgr'), ('contract-both', 'ACT1', 'alice', 'ACT1'),
                          ('one-person', 'owner', 'alice', 'owner'), ('one-other', 'alice', None, 'alice'),
                          ('contract-nominee', 'owner', 'ACT1', 'owner')):
        yield Held(name, holder=h, nominee=n, manager=m, depth={'quick': 1, 'thorough': 3}, parts={'quick': 1, 'thorough': 4})
    yield Matrix('matrix', depth={'quick': 3, 'thorough': 4}, parts={'quick': 8, 'thorough': 17})
