"""C21: event logs tell exactly what happened."""
from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'getConnectorBalance', 'getConversionFee', 'isConversionsEnabled', 'getOwner',
         'getManager', 'getAddress')


class Logged(Market):
    """Every operation; the events of each transaction are compared as a multiset, and the token balances are
    reconstructed from the token events alone."""
    views = VIEWS
    compare_events = True
    compare_coins = False
    watch = ('owner', 'alice', 'bob', 'mgr')
    coins = {'owner': 10 ** 9, 'alice': 100000}
    fee = 3000

    def setup(self):
        return Market.setup(self) + [deploy('ACT', 'ACT1', 'bob', _mode='ok'), deploy('ACT', 'ACT2', 'bob', _mode='rej'),
                                     tx('owner', 'CONV1', 'transferManagement', _newManager='@mgr')] \
            + registry('REG2', None)

    paths = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('FT1', 'FT1', 'ICXT'),
             ('TK2', 'FT1', 'ICXT'), ('TK1', 'FT1', 'TK1'))

    def alphabet(self, M, depth):
        for p in self.paths:
            yield convert('alice', p, 400)
            yield convert('alice', p, 3, target='ACT1')
        yield convert_coin('alice', ('ICXT', 'FT1', 'FT1'), 500)
        yield convert_coin('alice', ('ICXT', 'FT1', 'TK1'), 2, target='bob')
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 400, minr=10 ** 9)
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 400, target='ACT2')
        for t in ('TK1', 'FT1', 'ICXT'):
            for to in ('bob', 'alice', 'ACT1', 'ACT2'):
                yield tx('alice', t, 'transfer', _to='@' + to, _value=7, _data=b'hello')
            yield tx('alice', t, 'transfer', _to='@bob', _value=0)
            yield tx('alice', t, 'transfer', _to='@bob', _value=10 ** 9)
        yield tx('alice', 'FT1', 'destroy', _from='@alice', _amount=9)
        yield tx('alice', 'FT1', 'issue', _to='@alice', _amount=9)
        yield coin('alice', 'ICXT', 55)
        yield tx('alice', 'ICXT', 'deposit', 1)
        yield coin('alice', 'ICXT', 0)
        yield tx('alice', 'ICXT', 'withdraw', _amount=5)
        yield tx('alice', 'ICXT', 'withdrawTo', _amount=5, _to='@ACT1')
        yield tx('alice', 'ICXT', 'withdrawTo', _amount=5, _to='@bob')
        for op in self.admin():
            yield op

    def admin(self):
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=0)
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=3000)
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=PPM + 1)
        for d in (True, False):
            yield tx('owner', 'CONV1', 'disableConversions', _disable=d)
            yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK1', _disable=d)
            yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=d)
            yield tx('owner', 'CONV1', 'disableRegistryUpdate', _disable=d)
            yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=d)
        for d in (True, False):
            yield tx('mgr', 'CONV1', 'disableConversions', _disable=d)
        yield tx('mgr', 'CONV1', 'setConversionFee', _conversionFee=3000)
        yield tx('mgr', 'CONV1', 'setConversionFee', _conversionFee=40)
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner')
        yield tx('owner', 'FT1', 'acceptOwnerShip')
        yield tx('owner', 'FT1', 'issue', _to='@bob', _amount=12)
        yield tx('owner', 'FT1', 'destroy', _from='@bob', _amount=4)
        yield tx('owner', 'CONV1', 'transferManagement', _newManager='@alice')
        yield tx('mgr', 'CONV1', 'acceptManagement')
        yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@alice')
        yield tx('alice', 'CONV1', 'acceptOwnerShip')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@NET')
        for n in ('Network', 'ScoreRegistry'):
            yield tx('owner', 'REG1', 'unregisterAddress', _scoreName=n)
        yield tx('owner', 'CONV1', 'updateRegistry')
        yield tx('mgr', 'CONV1', 'restoreRegistry')
        yield tx('owner', 'CONV1', 'withdrawTokens', _token='@TK1', _to='@bob', _amount=3)
        yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@TK1', _weight=500000, _enableVirtualBalance=True,
                 _virtualBalance=30000)

    def probes(self, M, depth):
        if depth == 0:
            yield deploy('FT', 'FT3', 'bob', _name='x', _symbol='y', _initialSupply=5, _decimals=2)
            yield deploy('IRC', 'TK3', 'bob', _name='x', _symbol='y', _initialSupply=5, _decimals=2)
            yield deploy('ICXT', 'ICXT2', 'bob')
            yield deploy('REG', 'REG3', 'bob')
            yield deploy('NET', 'NET2', 'bob')
            yield deploy('CONV', 'CONV3', 'bob', _token='@FT1', _registry='@REG1', _maxConversionFee=5,
                         _connectorToken='@TK1', _connectorWeight=10)
            for c in self.updated:
                yield update(c, 'owner')

    updated = 'TK1', 'FT1', 'ICXT', 'NET', 'CONV1', 'REG1', 'REG2'

    def step_invariant(self, W, op, before, ok, ret, events):
        """Balances of every token reconstructed from the events of the token."""
        if not ok:
            return None
        d = {}
        for e in events:
            t = e.score_address
            if W.kinds.get(t) not in ('IRC', 'FT', 'ICXT'):
                continue
            if e.indexed[0].startswith('Transfer('):
                f, to, n = e.indexed[1:4]
                if f != t:
                    d[(t, f)] = d.get((t, f), 0) - n
                if to != t:
                    d[(t, to)] = d.get((t, to), 0) + n
        burnt = {}
        for e in events:
            if W.kinds.get(e.score_address) == 'ICXT' and e.indexed[0].startswith('Destruction('):
                burnt[e.score_address] = burnt.get(e.score_address, 0) + e.data[0]
        for k, v in W.obs.items():
            if k[1] != 'balanceOf':
                continue
            diff = v - before[k]
            exp = d.get((k[0], k[2]), 0)
            if diff != exp:
                # withdrawals of the ICX token are logged as destructions
                if W.kinds[k[0]] == 'ICXT' and exp - diff > 0 and exp - diff <= burnt.get(k[0], 0):
                    burnt[k[0]] -= exp - diff
                    continue
                return 'the balance of %s in %s changed by %d but its events say %d' % (lab(k[2]), lab(k[0]), diff, exp)
        return None


from ..explore import lab  # noqa: E402


class Config(Logged):
    """The configuration phase: ownership of everything still with the deployer."""
    activate = False
    conns = (('TK1', 500000, 1000, None),)

    def alphabet(self, M, depth):
        for op in self.admin():
            yield op
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@bob')
        yield tx('bob', 'FT1', 'acceptOwnerShip')
        yield tx('owner', 'CONV1', 'addConnector', _token='@ICXT', _weight=9, _enableVirtualBalance=False)
        yield tx('owner', 'TK1', 'transfer', _to='@CONV1', _value=9)
        yield tx('bob', 'CONV1', 'acceptManagement')
        yield tx('bob', 'CONV1', 'acceptOwnerShip')
        for who in ('mgr', 'alice', 'owner'):
            yield tx(who, 'CONV1', 'acceptManagement')
        yield tx('mgr', 'CONV1', 'transferManagement', _newManager='@owner')
        yield tx('owner', 'CONV1', 'transferManagement', _newManager='@mgr')
        for c in ('NET', 'ICXT', 'REG1', 'FT1'):
            yield tx('owner', c, 'transferOwnerShip', _newOwner='@bob')
            yield tx('bob', c, 'acceptOwnerShip')


class Owner(Config):
    """An account owns the flexible token: issues and burns, from nothing to everything somebody holds."""
    who = ('alice', 'bob', 'owner', 'CONV1', 'ACT1')

    def alphabet(self, M, depth):
        for a in self.who:
            n = bal(M, 'FT1', a)
            for v in sorted({0, 1, n // 2, n, n + 1}):
                yield tx('owner', 'FT1', 'destroy', _from='@' + a, _amount=v)
            for v in (0, 1, 7):
                yield tx('owner', 'FT1', 'issue', _to='@' + a, _amount=v)
            if a in ('alice', 'bob'):
                for v in sorted({1, n}):
                    yield tx(a, 'FT1', 'destroy', _from='@' + a, _amount=v)
                    yield tx(a, 'FT1', 'transfer', _to='@owner', _value=v)
        for d in (True, False):
            yield tx('owner', 'FT1', 'disableTransfer', _disable=d)

    def probes(self, M, depth):
        return ()


class Handover(Config):
    """Every hand-over of every role between every pair of accounts, back and forth, and with nobody and contracts."""
    who = ('owner', 'bob', 'ACT1')
    target = 'CONV1'
    roles = 0, 1

    def alphabet(self, M, depth):
        t = self.target
        roles = [('transferOwnerShip', '_newOwner', 'acceptOwnerShip')]
        if t == 'CONV1':
            roles.append(('transferManagement', '_newManager', 'acceptManagement'))
        for give, arg, take in [roles[i] for i in self.roles if i < len(roles)]:
            for w in self.who:
                for n in self.who + ('ZERO', t):
                    if w == 'ACT1':
                        yield tx('bob', w, 'run', _prog=prog((t, give, ['@' + n], 0, False)))
                    else:
                        yield tx(w, t, give, **{arg: '@' + n})
                if w == 'ACT1':
                    yield tx('bob', w, 'run', _prog=prog((t, take, [], 0, False)))
                else:
                    yield tx(w, t, take)

    def probes(self, M, depth):
        return ()


class Whole(Logged):
    """One trader may sell the entire supply."""
    supply = 2000
    fee = 0
    conns = (('TK1', 500000, 1000, None), ('ICXT', 300000, 900, None))
    supplied = 1500

    def setup(self):
        return Logged.setup(self) + give('FT1', 'owner', ('alice', self.supplied))

    def alphabet(self, M, depth):
        b = bal(M, 'FT1', 'alice')
        for p in (('FT1', 'FT1', 'TK1'), ('FT1', 'FT1', 'ICXT')):
            for n in sorted({1, b // 2, b - 1, b}):
                if n > 0:
                    yield convert('alice', p, n)
        for p in (('TK1', 'FT1', 'FT1'), ('TK1', 'FT1', 'ICXT')):
            for n in (1, 700, bal(M, 'TK1', 'alice')):
                yield convert('alice', p, n)
        yield tx('alice', 'FT1', 'transfer', _to='@bob', _value=b)
        yield tx('alice', 'FT1', 'transfer', _to='@alice', _value=b)
        yield tx('alice', 'FT1', 'destroy', _from='@alice', _amount=b)
        yield coin('alice', 'ICXT', 100000)
        yield tx('alice', 'ICXT', 'withdraw', _amount=bal(M, 'ICXT', 'alice'))

    def probes(self, M, depth):
        return ()


def tasks(tier):
    yield Handover('handover', depth={'quick': 3, 'thorough': 5}, parts={'quick': 2, 'thorough': 16})
    yield Handover('handover-manager', roles=(1,), depth={'quick': 8, 'thorough': 9}, parts=1)
    for t in ('FT1', 'NET', 'REG1', 'ICXT'):
        yield Handover('handover-' + t.lower(), target=t, depth={'quick': 8, 'thorough': 9}, parts=1)
    for fee in (0, 3000):
        yield Whole('whole-%d' % fee, fee=fee, depth={'quick': 2, 'thorough': 4}, parts={'quick': 1, 'thorough': 8})
    yield Whole('whole-virtual', depth={'quick': 2, 'thorough': 4}, parts={'quick': 1, 'thorough': 8},
                conns=(('TK1', 700000, 3000, 5000), ('ICXT', 300000, 900, 10)))
    yield Owner('owned', depth={'quick': 2, 'thorough': 4}, parts={'quick': 2, 'thorough': 16})
    for f in (600000, PPM - 1, PPM):
        yield Whole('fee-%d' % f, fee=f, depth={'quick': 2, 'thorough': 4}, parts={'quick': 1, 'thorough': 8})
    d = {'quick': 2, 'thorough': 3}
    P = {'quick': 4, 'thorough': 32}
    yield Logged('market', depth=d, parts=P)
    yield Logged('market-virtual', depth=d, parts=P,
                 conns=(('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, None)))
    yield Logged('two-hops', depth=d, parts=P, conns2=(('FT1', 400000, 4000, None), ('TK1', 600000, 8000, 3000)),
                 paths=(('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('FT2', 'FT2', 'FT1', 'FT1', 'ICXT'),
                        ('TK2', 'FT1', 'TK1', 'FT2', 'FT2'), ('FT1', 'FT2', 'TK1')))
    yield Config('configuration', depth={'quick': 2, 'thorough': 4}, parts=P)
