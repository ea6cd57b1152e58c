"""C17: conversions run only when allowed, and only through the registered network."""
import json

from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'isConversionsEnabled', 'isActive', 'getRegistry', 'getConnector', 'getManager',
         'getAddress', 'getConnectorBalance')


def cdata(to, minr=1):
    return json.dumps({'toToken': str(A(to)), 'minReturn': minr}).encode()


class Gate(Market):
    """Every combination of the switches, ownership and registry entries reachable in `depth` changes; in each of
    them every way to get a conversion or a token into the converter is tried."""
    views = VIEWS
    watch = ('owner', 'alice', 'mgr', 'xNET')
    coins = {'owner': 10 ** 9, 'alice': 100000}
    conns = (('TK1', 500000, 10000, None), ('TK2', 200000, 4000, None), ('ICXT', 300000, 6000, None))
    extra2 = ()
    deep = False             # the callbacks and foreign tokens also at depth 3

    def setup(self):
        ops = Market.setup(self) + [deploy('NET', 'NET2', 'eve')] + registry('REG2', 'NET2') + tok('TK3', 'IRC', 10 ** 6)
        ops += tok('FT2', 'FT', 10 ** 6)
        if 'TK2' not in [c[0] for c in self.conns]:
            ops += tok('TK2', 'IRC', 10 ** 6) + give('TK2', 'owner', ('alice', 5000))
        for t, n in (('TK1', 2000), ('TK2', 2000), ('TK3', 2000), ('FT2', 2000)):
            ops += give(t, 'owner', ('mgr', n)) if t != 'TK3' else give(t, 'owner', ('mgr', n), ('alice', n))
        ops += give('FT2', 'owner', ('alice', 2000)) + give('FT1', 'alice', ('mgr', 500))
        ops += [tx('owner', 'CONV1', 'transferManagement', _newManager='@mgr'), tx('mgr', 'CONV1', 'acceptManagement')]
        ops += [deploy('ACT', 'ACT1', 'alice', _mode='ok'), deploy('EVIL', 'EVIL1', 'alice', _ptr='@CONV1', _onTransfer='',
                                                                  _onOwner='', _balance=0, _budget=2),
                tx('eve', 'NET2', 'registerIcxToken', _icxToken='@ICXT', _register=True)]
        # something left over in the network, for its owner to take
        for t in ('TK1', 'FT1'):
            ops += give(t, 'owner', ('xNET', 200)) if t == 'TK1' else give(t, 'alice', ('xNET', 200))
        for t, w in (('TK1', 'mgr'), ('FT1', 'mgr')):
            ops.append(tx(w, t, 'transfer', _to='@NET', _value=30, _data=b'conversionResult'))
        return ops + list(self.extra2)

    def switches(self):
        yield tx('owner', 'CONV1', 'disableConversions', _disable=True)
        yield tx('mgr', 'CONV1', 'disableConversions', _disable=False)
        for t in ('TK1', 'TK2'):
            yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@' + t, _disable=True)
            yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@' + t, _disable=False)
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner')
        yield tx('owner', 'FT1', 'acceptOwnerShip')
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@NET2')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@NET')
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2')
        yield tx('owner', 'CONV1', 'updateRegistry')
        yield tx('mgr', 'CONV1', 'restoreRegistry')
        yield tx('owner', 'FT1', 'disableTransfer', _disable=True)
        yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=True)

    def alphabet(self, M, depth):
        return self.switches()

    paths = (('TK1', 'FT1', 'FT1'), ('TK2', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('FT1', 'FT1', 'TK2'),
             ('TK1', 'FT1', 'TK2'), ('TK2', 'FT1', 'TK1'))

    def probes(self, M, depth):
        full = depth == 0
        for p in self.paths:
            for net in ('NET', 'NET2'):
                yield convert('alice', p, 100, net=net)
            if full or p[0] == 'FT1':
                yield convert('mgr', p, 100)
            yield q('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=100)
            # through a pointer that names the converter whether or not it owns its token
            if not full and M.c[A('FT1')]['owner'] == A('CONV1'):
                continue
            yield convert('alice', (p[0], 'EVIL1', p[2]), 100)
            yield q('NET', 'getExpectedReturnByPath', _path=path(p[0], 'EVIL1', p[2]), _amount=100)
            yield q('CONV1', 'getReturn', _fromToken='@' + p[0], _toToken='@' + p[2], _amount=100)
        yield convert_coin('alice', ('ICXT', 'FT1', 'FT1'), 100)
        yield convert_coin('alice', ('ICXT', 'FT1', 'TK2'), 100, net='NET2')
        # tokens sent straight to the converter
        for who in ('alice', 'owner', 'mgr'):
            for t in ('TK1', 'FT1', 'TK3', 'FT2'):
                for d in (None, cdata('FT1'), cdata('TK2')) if full or t == 'TK1' else (None, cdata('TK1')):
                    if d is None:
                        yield tx(who, t, 'transfer', _to='@CONV1', _value=50)
                    else:
                        yield tx(who, t, 'transfer', _to='@CONV1', _value=50, _data=d)
        for d in (b'conversionResult', b'None', b''):
            for who, t in (('alice', 'TK1'), ('mgr', 'TK1'), ('owner', 'TK1'), ('alice', 'FT1')) if full or depth > 3 else \
                    (('alice', 'TK1'),) if d[:1] == b'c' else ():
                yield tx(who, t, 'transfer', _to='@CONV1', _value=9, _data=d)
        yield tx('mgr', 'TK2', 'transfer', _to='@CONV1', _value=0)
        # by the account whose address has the same body as the network's
        for t, to in (('TK1', 'FT1'), ('FT1', 'TK1')):
            for d in (cdata(to), b'conversionResult'):
                yield tx('xNET', t, 'transfer', _to='@CONV1', _value=50, _data=d)
        for t in ('TK1', 'FT1'):
            for to in ('CONV1', 'alice'):
                yield tx('owner', 'NET', 'withdrawTokens', _token='@' + t, _to='@' + to, _amount=7)
        if depth > 2 and not self.deep:
            return
        # callbacks pretended by accounts, by contracts that are no tokens, and by fake tokens
        for who in ('alice', 'owner', 'mgr'):
            for frm in ('NET', 'owner'):
                for to in ('TK1', 'FT1'):
                    yield tx(who, 'CONV1', 'tokenFallback', _from='@' + frm, _value=50, _data=cdata(to))
        for a in ('ACT1', 'EVIL1'):
            for frm in ('NET', 'NET2', 'owner', 'mgr', 'CONV1'):
                for to in ('TK1', 'FT1'):
                    yield tx('alice', a, 'run', _prog=prog(('CONV1', 'tokenFallback', ['@' + frm, 50,
                        cdata(to)], 0, True)))
        # conversions into and out of tokens that are not connectors
        for p in (('TK1', 'FT1', 'TK3'), ('TK3', 'FT1', 'FT1'), ('TK3', 'FT1', 'TK1'), ('FT2', 'FT1', 'TK1'),
                  ('FT1', 'FT1', 'TK3'), ('TK1', 'FT1', 'FT2'), ('FT1', 'FT1', 'FT1'), ('TK1', 'FT1', 'TK1'),
                  ('EVIL1', 'FT1', 'TK1')):
            if p[0] != 'EVIL1':
                yield convert('alice', p, 100)
            else:
                yield tx('alice', 'EVIL1', 'run', _prog=prog(('NET', 'tokenFallback', ['@alice', 100, convdata(p, 1)], 0,
                                                              True)))


class Fresh(Gate):
    """Before activation: the configuration phase."""
    activate = False
    conns = (('TK1', 500000, 1000, None),)
    paths = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'))

    def setup(self):
        return Gate.setup(self)

    def alphabet(self, M, depth):
        for op in self.switches():
            yield op
        yield tx('owner', 'CONV1', 'addConnector', _token='@TK2', _weight=200000, _enableVirtualBalance=False)
        for who in ('owner', 'mgr', 'alice'):
            for t in ('TK1', 'TK2'):
                yield tx(who, t, 'transfer', _to='@CONV1', _value=100)
        yield tx('mgr', 'CONV1', 'transferManagement', _newManager='@alice')
        yield tx('alice', 'CONV1', 'acceptManagement')
        yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@alice')
        yield tx('alice', 'CONV1', 'acceptOwnerShip')


def by_contract(target, method, *args):
    return tx('alice', 'ACT1', 'run', _prog=prog((target, method, list(args), 0, False)))


class Held(Gate):
    """The converter belongs to a contract, which may also be its manager."""
    both = False

    def setup(self):
        ops = Gate.setup(self)
        for t in ('TK1', 'TK2', 'TK3', 'FT2'):
            ops += give(t, 'owner', ('ACT1', 900))
        ops += give('FT1', 'mgr', ('ACT1', 200))
        ops += [tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@ACT1'), by_contract('CONV1', 'acceptOwnerShip')]
        if self.both:
            ops += [tx('mgr', 'CONV1', 'transferManagement', _newManager='@ACT1'), by_contract('CONV1', 'acceptManagement')]
        return ops

    def alphabet(self, M, depth):
        for d in (True, False):
            yield by_contract('CONV1', 'disableConversions', d)
            yield by_contract('CONV1', 'disableConnectorPurchases', '@TK1', d)
        yield by_contract('CONV1', 'transferTokenOwnership', '@ACT1')
        yield by_contract('FT1', 'acceptOwnerShip')
        yield by_contract('FT1', 'transferOwnerShip', '@CONV1')
        yield by_contract('CONV1', 'acceptTokenOwnership')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@NET2')
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@ACT1')

    def probes(self, M, depth):
        for t in ('TK1', 'TK2', 'TK3', 'FT1', 'FT2'):
            for d in (None, b'', b'x', cdata('FT1'), cdata('TK1'), cdata('TK2'), b'conversionResult'):
                yield by_contract(t, 'transfer', '@CONV1', 50, *(() if d is None else (d,)))
        for who in ('owner', 'mgr', 'alice'):
            for t in ('TK1', 'FT1'):
                for d in (b'', cdata('FT1'), cdata('TK2')):
                    yield tx(who, t, 'transfer', _to='@CONV1', _value=50, _data=d)
        for p in self.paths:
            yield convert('alice', p, 100)
            yield by_contract(p[0], 'transfer', '@NET', 100, convdata(list(p), 1))


class Bystanders(Gate):
    """Everything else the owner and the manager may do leaves the switches as they are."""
    fee = 3000
    on = ()

    def alphabet(self, M, depth):
        for f in (0, 1, 3000, PPM):
            for who in ('owner', 'mgr'):
                yield tx(who, 'CONV1', 'setConversionFee', _conversionFee=f)
        for t, n in (('TK1', 500000), ('TK2', 200000), ('TK2', 1)):
            for e, v in ((True, 5000), (True, 0), (False, 0)):
                yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@' + t, _weight=n, _enableVirtualBalance=e,
                         _virtualBalance=v)
        for n in ('alice', 'ZERO', 'owner'):
            yield tx('mgr', 'CONV1', 'transferManagement', _newManager='@' + n)
            yield tx('owner', 'CONV1', 'transferManagement', _newManager='@' + n)
            yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@' + n)
        for who in ('alice', 'owner'):
            yield tx(who, 'CONV1', 'acceptManagement')
            yield tx(who, 'CONV1', 'acceptOwnerShip')
        for d in (True, False):
            yield tx('mgr', 'CONV1', 'disableRegistryUpdate', _disable=d)
            yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=d)
            yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=d)
        yield tx('owner', 'CONV1', 'withdrawTokens', _token='@TK3', _to='@owner', _amount=0)
        yield tx('mgr', 'CONV1', 'restoreRegistry')
        yield tx('owner', 'CONV1', 'updateRegistry')
        yield tx('owner', 'CONV1', 'addConnector', _token='@TK3', _weight=1, _enableVirtualBalance=False)
        yield tx('alice', 'FT1', 'transfer', _to='@owner', _value=3)
        yield update('CONV1', 'owner')
        yield RESTART

    def probes(self, M, depth):
        for p in self.paths:
            yield convert('alice', p, 100)
        yield convert_coin('alice', ('ICXT', 'FT1', 'FT1'), 100)


class Alone(Market):
    """One account holds all flexible tokens there are."""
    views = VIEWS
    watch = ('owner', 'alice')
    coins = {'owner': 10 ** 9, 'alice': 100000}
    supply = 1000
    hold = 600
    extra = (tx('owner', 'FT1', 'transfer', _to='@alice', _value=750),)

    def alphabet(self, M, depth):
        for d in (True, False):
            yield tx('owner', 'CONV1', 'disableConversions', _disable=d)
            yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK1', _disable=d)
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner')
        yield tx('owner', 'FT1', 'acceptOwnerShip')
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
        yield convert('alice', ('FT1', 'FT1', 'TK1'), 400)

    def probes(self, M, depth):
        n = bal(M, 'FT1', 'alice')
        for t in ('TK1', 'TK2', 'ICXT'):
            for v in (n, n - 1, 1):
                yield convert('alice', ('FT1', 'FT1', t), v)
            v = bal(M, t, 'alice')
            yield convert('alice', (t, 'FT1', 'FT1'), v)
            yield convert('alice', (t, 'FT1', 'TK1' if t != 'TK1' else 'TK2'), v)
        yield tx('alice', 'FT1', 'transfer', _to='@CONV1', _value=n)
        yield tx('alice', 'FT1', 'transfer', _to='@CONV1', _value=n, _data=cdata('TK1'))


def tasks(tier):
    yield Alone('alone', depth={'quick': 2, 'thorough': 4}, parts={'quick': 1, 'thorough': 8})
    d = {'quick': 3, 'thorough': 4}
    P = {'quick': 8, 'thorough': 32}
    virt = (('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, None))
    deep = tier == 'thorough'
    yield Gate('active', depth=d, parts=P, deep=deep)
    yield Gate('active-virtual', conns=virt, depth={'quick': 2, 'thorough': 3}, parts=P)
    yield Fresh('inactive', depth=d, parts=P, deep=deep)
    for b in (False, True):
        yield Held('held-both' if b else 'held', both=b, depth={'quick': 2, 'thorough': 4}, parts={'quick': 2, 'thorough': 16})
    # starting points that need several switches at once
    off = (tx('owner', 'CONV1', 'disableConversions', _disable=True),
           tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True),
           tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK2', _disable=True))
    yield Gate('all-off', extra2=off, depth={'quick': 2, 'thorough': 3}, parts=P)
    d = {'quick': 2, 'thorough': 3}
    yield Bystanders('bystanders-on', depth={'quick': 1, 'thorough': 3}, parts=P)
    yield Bystanders('bystanders-off', extra2=off[:1], depth=d, parts=P)
    yield Bystanders('bystanders-half', extra2=off[1:2], depth={'quick': 1, 'thorough': 3}, parts=P)
    yield Bystanders('bystanders-out', extra2=(tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner'), tx(
        'owner', 'FT1', 'acceptOwnerShip')), depth={'quick': 1, 'thorough': 3}, parts=P)
    mig = (tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2'),
           tx('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2'),
           tx('owner', 'CONV1', 'updateRegistry'))
    yield Gate('migrated', extra2=mig, depth={'quick': 2, 'thorough': 3}, parts=P)
    back = (tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner'), tx('owner', 'FT1', 'acceptOwnerShip'))
    yield Gate('handed-back', extra2=back, depth={'quick': 2, 'thorough': 3}, parts=P)
