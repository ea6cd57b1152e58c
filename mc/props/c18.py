"""C18: funds leave a contract only by conversion or a permitted withdrawal by its owner."""
from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'isActive', 'getOwner')


class Vaults(Market):
    """Every contract holds stray tokens of every kind; everybody tries to withdraw everything from everywhere."""
    views = VIEWS
    watch = ('owner', 'alice', 'bob', 'mgr', 'zero', 'ZERO')
    coins = {'owner': 10 ** 9, 'alice': 100000}
    conns = (('TK1', 500000, 1000, None), ('ICXT', 300000, 600, None))
    supply = 2000
    hold = 100
    vaults = ('CONV1', 'NET', 'FT1', 'ICXT')
    toks = ('TK1', 'FT1', 'ICXT', 'TK3')
    wide = False
    strays = (('CONV1', 80),)

    def setup(self):
        ops = Market.setup(self) + tok('TK3', 'QUIET', 10 ** 6)
        # stray holdings in every contract
        for v, n in (('CONV1', 60), ('FT1', 50), ('ICXT', 70)):
            ops.append(tx('owner', 'TK3', 'transfer', _to='@' + v, _value=n))
        for t in ('TK1', 'ICXT', 'TK3'):
            ops.append(tx('owner', t, 'transfer', _to='@NET', _value=90, _data=b'conversionResult'))
        ops.append(tx('alice', 'FT1', 'transfer', _to='@NET', _value=40, _data=b'conversionResult'))
        ops += [deploy('ACT', 'ACT1', 'bob', _mode='ok'), deploy('ACT', 'ACT2', 'bob', _mode='rej'),
                tx('owner', 'CONV1', 'transferManagement', _newManager='@mgr'), tx('mgr', 'CONV1', 'acceptManagement')]
        return ops

    def alphabet(self, M, depth):
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner')
        yield tx('owner', 'FT1', 'acceptOwnerShip')
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        for v in ('CONV1', 'NET'):
            yield tx('owner', v, 'transferOwnerShip', _newOwner='@bob')
            yield tx('bob', v, 'acceptOwnerShip')
        yield tx('owner', 'CONV1', 'withdrawTokens', _token='@TK3', _to='@alice', _amount=60)
        yield tx('owner', 'CONV1', 'withdrawFromToken', _token='@TK3', _to='@NET', _amount=20)
        yield tx('owner', 'NET', 'withdrawTokens', _token='@TK3', _to='@bob', _amount=30)
        yield tx('owner', 'NET', 'withdrawTokens', _token='@FT1', _to='@alice', _amount=40)
        yield tx('owner', 'CONV1', 'withdrawTokens', _token='@TK1', _to='@alice', _amount=1000)
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 50)
        yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=True)

    def probes(self, M, depth):
        whos = ('owner', 'bob', 'mgr', 'alice')
        for v in self.vaults:
            for t in self.toks:
                b = bal(M, t, v)
                for who in whos:
                    full = who == 'owner'
                    for n in sorted({-1, 0, 1, b, b + 1}) if full else sorted({1, b}):
                        for to in ('alice', v, t, 'ZERO', 'zero', 'ACT1', 'ACT2', 'NET', 'CONV1', 'x' + v) if full and n in (1, b) \
                                else ('alice',):
                            yield tx(who, v, 'withdrawTokens', _token='@' + t, _to='@' + to, _amount=n)
        # withdrawals of what the flexible token holds, through the converter that owns it
        for who in whos:
            for t in ('TK3', 'TK1'):
                b = bal(M, t, 'FT1')
                for n in sorted({0, 1, b, b + 1}):
                    for to in ('alice', 'FT1', t, 'ZERO', 'CONV1', 'ACT2'):
                        yield tx(who, 'CONV1', 'withdrawFromToken', _token='@' + t, _to='@' + to, _amount=n)
        for v in self.vaults:
            for who in ('cowner', 'x' + v):
                yield tx(who, v, 'withdrawTokens', _token='@TK3', _to='@alice', _amount=1)
        # other calls that take an account or a token and could be mistaken for a way out
        for who in ('alice', 'mgr', 'bob'):
            yield tx(who, 'ICXT', 'withdrawTo', _amount=1, _to='@' + who)
            yield tx(who, 'FT1', 'destroy', _from='@CONV1', _amount=1)
            yield tx(who, 'FT1', 'destroy', _from='@NET', _amount=1)
            yield tx(who, 'CONV1', 'tokenFallback', _from='@' + who, _value=1, _data=b'')
            yield tx(who, 'NET', 'tokenFallback', _from='@' + who, _value=1,
                     _data=convdata(['TK1', 'FT1', 'FT1'], 1))
            yield tx(who, 'NET', 'convert', _path=path('ICXT', 'FT1', 'TK1'), _minReturn=1)
            yield tx(who, 'NET', 'convertFor', _path=path('TK1', 'FT1', 'ICXT'), _minReturn=1, _for='@' + who)

    def step_invariant(self, W, op, before, ok, ret, events):
        if not ok:
            return None
        w = op[0] == 'tx' and op[3] in ('withdrawTokens', 'withdrawFromToken')
        conv = op[0] == 'tx' and (op[3] in ('convert', 'convertFor') or op[3] == 'transfer' and op[4].get('_data'))
        for v in self.vaults:
            for t in self.toks:
                k = (A(t), 'balanceOf', A(v))
                lost = before[k] - W.obs[k]
                if lost <= 0:
                    continue
                if not w and not (conv and v != 'FT1'):
                    return '%s lost %d %s although nothing was withdrawn or converted' % (v, lost, t)
                if w:
                    src = op[2] if op[3] == 'withdrawTokens' else A('FT1')
                    if A(v) != src or A(t) != op[4]['_token'] or lost != op[4]['_amount']:
                        return 'a withdrawal from %s took %d %s from %s' % (op[2], lost, t, v)
                    if op[1] != before[(op[2], 'getOwner')]:
                        return 'withdrawn by somebody who is not the owner'
                    if op[3] == 'withdrawTokens' and v in ('CONV1', 'CONV2') and before[(A(v), 'isActive')] and \
                            t in [c[0] for c in (self.conns if v == 'CONV1' else self.conns2)]:
                        return 'connector token %s withdrawn from the active converter' % t
        return W.conserved()


class Switched(Vaults):
    """An active converter in every position of its other switches, with virtual and real connectors."""
    conns = (('TK1', 500000, 1000, 3000), ('TK2', 200000, 800, None), ('ICXT', 300000, 600, None))
    toks = ('TK1', 'TK2', 'TK3')
    vaults = ('CONV1',)

    def alphabet(self, M, depth):
        for d in (True, False):
            yield tx('owner', 'CONV1', 'disableConversions', _disable=d)
            yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=d)
            yield tx('mgr', 'CONV1', 'disableRegistryUpdate', _disable=d)
            for t in ('TK1', 'TK2'):
                yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@' + t, _disable=d)
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=1000000)
        yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@TK1', _weight=500000, _enableVirtualBalance=False,
                 _virtualBalance=0)
        yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@TK2', _weight=1, _enableVirtualBalance=True,
                 _virtualBalance=0)
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
        yield tx('owner', 'FT1', 'transfer', _to='@bob', _value=1)
        yield convert('alice', ('FT1', 'FT1', 'TK1'), 100)
        # offers that nobody has accepted yet
        for to in ('alice', 'ACT1', 'NET', 'ZERO', 'owner'):
            yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@' + to)
            yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@' + to)
            yield tx('owner', 'CONV1', 'transferManagement', _newManager='@' + to)

    def probes(self, M, depth):
        for t in self.toks:
            b = bal(M, t, 'CONV1')
            for who in ('owner', 'mgr', 'alice'):
                for n in sorted({1, b, b + 1}) if who == 'owner' else (1,):
                    for to in ('alice', 'owner', 'CONV1', 'NET', 'FT1') if n == 1 else ('alice',):
                        yield tx(who, 'CONV1', 'withdrawTokens', _token='@' + t, _to='@' + to, _amount=n)


class Full(Vaults):
    """The same from the configuration phase, with a virtual connector."""
    conns = (('TK1', 500000, 1000, 3000), ('ICXT', 300000, 600, None))

    def setup(self):
        ops = Vaults.setup(self)
        ops += [tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner'), tx('owner', 'FT1', 'acceptOwnerShip'),
                tx('owner', 'TK1', 'transfer', _to='@CONV1', _value=70)]
        return ops


class Hops(Vaults):
    """Two converters in a row; the network holds some of every token the paths pass through."""
    conns2 = (('FT1', 400000, 400, None), ('TK1', 600000, 800, None))
    supply2 = 3000
    vaults = ('CONV1', 'CONV2', 'NET', 'FT1', 'FT2')
    toks = ('TK1', 'FT1', 'FT2', 'ICXT', 'TK3')
    hold = 300
    paths = (('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('FT2', 'FT2', 'FT1', 'FT1', 'TK1'),
             ('ICXT', 'FT1', 'FT1', 'FT2', 'TK1'), ('TK1', 'FT2', 'FT1', 'FT1', 'ICXT'), ('FT1', 'FT2', 'TK1', 'FT1', 'FT1'))

    def setup(self):
        ops = Vaults.setup(self)
        return ops + [tx('owner', 'FT2', 'transfer', _to='@NET', _value=35, _data=b'conversionResult')]

    def alphabet(self, M, depth):
        for p in self.paths:
            for n in (1, 60):
                for t in (None, 'bob', 'NET', 'CONV1') if n > 1 and not depth else (None,):
                    yield convert('alice', p, n, target=t)
        yield convert_coin('alice', ('ICXT', 'FT1', 'FT1', 'FT2', 'FT2'), 70)
        yield tx('owner', 'NET', 'withdrawTokens', _token='@FT1', _to='@alice', _amount=40)
        yield tx('owner', 'NET', 'withdrawTokens', _token='@FT2', _to='@alice', _amount=5)
        yield tx('owner', 'CONV2', 'withdrawTokens', _token='@TK3', _to='@alice', _amount=5)
        yield tx('owner', 'TK3', 'transfer', _to='@CONV2', _value=9)
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner')
        yield tx('owner', 'FT1', 'acceptOwnerShip')

    def probes(self, M, depth):
        for v in ('NET', 'CONV1', 'CONV2'):
            for t in self.toks:
                b = bal(M, t, v)
                for who in ('owner', 'alice'):
                    for n in sorted({1, b}):
                        yield tx(who, v, 'withdrawTokens', _token='@' + t, _to='@alice', _amount=n)
        for c in ('CONV1', 'CONV2'):
            for who in ('owner', 'alice'):
                yield tx(who, c, 'withdrawFromToken', _token='@TK3', _to='@alice', _amount=5)


def tasks(tier):
    d = {'quick': 2, 'thorough': 4}
    P = {'quick': 8, 'thorough': 32}
    yield Vaults('active', depth=d, parts=P)
    yield Full('inactive', depth={'quick': 2, 'thorough': 4}, parts=P)
    yield Hops('hops', depth={'quick': 2, 'thorough': 3}, parts={'quick': 4, 'thorough': 16})
    yield Switched('switched', depth={'quick': 2, 'thorough': 4}, parts={'quick': 4, 'thorough': 16})
