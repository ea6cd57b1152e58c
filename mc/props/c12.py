"""C12: conversions (and every other transaction) are atomic at every failure point."""
from ..worlds import *

LEVEL = 'model_checking'
RULE = ('breadth first over the alphabet; from every reached state each listed transaction is run once to count its '
        'step charges and nested calls and then once per failure point (out of steps at charge k; nested call k '
        'fails before, or after, the callee did its work); the transaction must fail, every view must be unchanged '
        'and, if any memory changed, a retry must behave like the first attempt')


class Atomic(Market):
    kinds = ('step', 'call', 'after')
    paths = ()
    others = True
    watch = ('owner', 'alice', 'bob')

    def setup(self):
        return Market.setup(self) + [
            deploy('ACT', 'ACT1', 'bob', _mode='ok'),
            deploy('ACT', 'ACT2', 'bob', _mode='rej'),
            tx('alice', 'TK1', 'transfer', _to='@ACT1', _value=50)]

    def ops(self, M):
        for p in self.paths:
            if p[0] == 'ICXT':
                yield convert_coin('alice', p, 300, target='ACT1')
            else:
                yield convert('alice', p, 300, target='ACT1' if p[-1] == 'FT1' else None)
        if self.others:
            yield coin('alice', 'ICXT', 30)
            yield tx('alice', 'ICXT', 'withdrawTo', _amount=20, _to='@ACT1')
            yield tx('alice', 'ICXT', 'withdraw', _amount=20)
            yield tx('alice', 'TK1', 'transfer', _to='@ACT1', _value=5)
            yield tx('alice', 'FT1', 'transfer', _to='@ACT1', _value=5)
            yield tx('alice', 'FT1', 'destroy', _from='@alice', _amount=5)
            yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@TK1', _weight=400000,
                     _enableVirtualBalance=True, _virtualBalance=9000)
            # total weight at and beyond its limit
            for t, n in (('TK1', 500000), ('TK1', 500001), ('TK2', 300000), ('TK2', 900000), ('ICXT', 1)):
                yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@' + t, _weight=n,
                         _enableVirtualBalance=False, _virtualBalance=0)
            yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=777)
            yield tx('owner', 'CONV1', 'disableConversions', _disable=True)
            yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK2', _disable=True)
            yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@owner')
            yield tx('owner', 'FT1', 'acceptOwnerShip')
            yield tx('owner', 'CONV1', 'withdrawTokens', _token='@TK1', _to='@bob', _amount=3)
            yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@TK1', _register=True)
            yield tx('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG1')
            yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
            yield tx('alice', 'CONV1', 'updateRegistry')
            yield tx('owner', 'CONV1', 'addConnector', _token='@FT2', _weight=1, _enableVirtualBalance=False)
            yield tx('owner', 'CONV1', 'transferManagement', _newManager='@bob')
            yield tx('bob', 'CONV1', 'acceptManagement')

    def alphabet(self, M, depth):
        for op in self.ops(M):
            yield op

    def probes(self, M, depth):
        for op in self.ops(M):
            yield sweep(op, self.kinds)
        # conversions that really fail half way through: the payout is rejected
        for p in self.paths:
            if p[0] != 'ICXT':
                yield convert('alice', p, 200, target='ACT2')
                yield convert('alice', p, 200, minr=10 ** 30)


class Inactive(Atomic):
    """Configuration phase: the converter does not own its token yet."""
    activate = False
    conns = (('TK1', 500000, 10000, None),)

    def ops(self, M):
        yield tx('owner', 'TK1', 'transfer', _to='@CONV1', _value=5)
        yield tx('owner', 'CONV1', 'addConnector', _token='@ICXT', _weight=1000, _enableVirtualBalance=True)
        yield tx('owner', 'CONV1', 'withdrawTokens', _token='@TK1', _to='@ACT1', _amount=3)
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        yield tx('owner', 'FT1', 'issue', _to='@alice', _amount=3)
        yield tx('owner', 'FT1', 'disableTransfer', _disable=True)
        for d in (True, False):
            yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=d)
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@bob')


class Compound(Market):
    """Several calls in one transaction: calls that succeeded must be undone when a later one fails, whether the
    whole transaction fails or an intermediate contract catches the failure and goes on."""
    watch = ('owner', 'alice', 'bob')
    maxfee = PPM

    def setup(self):
        # ACT2 holds every role (and some of everything); ACT1 may ask it to act and survives its failures
        ops = Market.setup(self) + [deploy('ACT', 'ACT2', 'bob', _mode='ok'), deploy('ACT', 'ACT1', 'bob', _mode='ok')]
        steps = [('CONV1', 'acceptManagement', [], 0, False)]
        ops += [tx('owner', 'CONV1', 'transferManagement', _newManager='@ACT2')]
        for c in ('CONV1', 'NET', 'REG1'):
            ops += [tx('owner', c, 'transferOwnerShip', _newOwner='@ACT2')]
            steps.append((c, 'acceptOwnerShip', [], 0, False))
        ops += [tx('bob', 'ACT2', 'run', _prog=prog(*steps))]
        for t in ('TK1', 'FT1', 'ICXT'):
            ops += [tx('alice', t, 'transfer', _to='@ACT2', _value=400)]
        return ops

    ACTS = [
        ('CONV1', 'setConversionFee', [250000]),
        ('CONV1', 'disableConversions', [True]),
        ('CONV1', 'disableConnectorPurchases', ['@TK2', True]),
        ('CONV1', 'updateConnector', ['@TK1', 300000, True, 7777]),
        ('CONV1', 'withdrawTokens', ['@TK1', '@bob', 5]),
        ('CONV1', 'disableTokenTransfers', [True]),
        ('CONV1', 'transferManagement', ['@alice']),
        ('CONV1', 'transferOwnerShip', ['@alice']),
        ('CONV1', 'transferTokenOwnership', ['@alice']),
        ('CONV1', 'disableRegistryUpdate', [True]),
        ('NET', 'registerIcxToken', ['@ICXT', False]),
        ('NET', 'registerIcxToken', ['@TK1', True]),
        ('REG1', 'registerAddress', ['Network', '@TK2']),
        ('REG1', 'unregisterAddress', ['Network']),
        ('TK1', 'transfer', ['@bob', 9]),
        ('ICXT', 'withdraw', [9]),
        ('FT1', 'destroy', ['@ACT2', 9]),
    ]

    def acts(self):
        for a in self.ACTS:
            yield a
        for p in (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'ICXT')):
            yield (p[0], 'transfer', ['@NET', 60, convdata(list(p), 1)])
        yield ('REG1', 'registerAddress', ['ScoreRegistry', '@REG1'])

    def alphabet(self, M, depth):
        refused = ('CONV1', 'setConversionFee', [-1], 0, False)
        for a in self.acts():
            bad = prog(a + (0, False), refused)
            yield tx('bob', 'ACT2', 'run', _prog=prog(a + (0, False)))
            # the first call goes through, the second one is refused: nothing of it remains
            yield tx('bob', 'ACT2', 'run', _prog=bad)
            yield tx('bob', 'ACT1', 'run', _prog=prog(('ACT2', 'run', [bad], 0, True)))
        for p in (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK2')):
            yield convert('alice', p, 500)

    def probes(self, M, depth):
        refused = ('CONV1', 'setConversionFee', [-1], 0, False)
        good = ('TK1', 'transfer', ['@NET', 30, convdata(['TK1', 'FT1', 'FT1'], 1)])
        for a in self.acts():
            bad = prog(a + (0, False), refused)
            # an undone call must not influence what follows in the same transaction
            yield tx('bob', 'ACT1', 'run', _prog=prog(('ACT2', 'run', [bad], 0, True),
                                                      ('ACT2', 'run', [prog(good + (0, False))], 0, True)))
        yield q('CONV1', 'getReturn', _fromToken='@TK1', _toToken='@FT1', _amount=1000)
        yield q('CONV1', 'getReturn', _fromToken='@TK1', _toToken='@TK2', _amount=1000)
        yield q('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1'), _amount=1000)


def tasks(tier):
    d = {'quick': 1, 'thorough': 2}
    P = {'quick': 4, 'thorough': 24}
    one = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('FT1', 'FT1', 'ICXT'),
           ('ICXT', 'FT1', 'FT1'))
    c2 = (('FT1', 400000, 4000, None), ('TK1', 600000, 8000, 3000))
    yield Atomic('real', paths=one, depth=d, parts=P, fee=1000)
    yield Atomic('virtual', paths=one[:3], depth=d, parts=P, others=False,
                 conns=(('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, 2000)))
    yield Atomic('two-hops', paths=(('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('FT2', 'FT2', 'FT1', 'FT1', 'ICXT'),
                                    ('ICXT', 'FT1', 'TK1', 'FT2', 'FT2')), conns2=c2, others=False, depth=d, parts=P)
    yield Inactive('inactive', paths=(), depth={'quick': 2, 'thorough': 3}, parts=P)
    yield Compound('compound', depth={'quick': 1, 'thorough': 2}, parts={'quick': 3, 'thorough': 24})
    yield Atomic('large', paths=one, depth=d, parts=P, fee=1000, unit=BIG)
