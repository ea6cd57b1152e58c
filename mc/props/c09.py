"""C09: the conversion fee is capped and charged exactly."""
from ..worlds import *
from ..explore import show

VIEWS = ('getConversionFee', 'getMaxConversionFee', 'balanceOf', 'totalSupply', 'getConnectorBalance')
C = 'CONV1'


class Fee(Market):
    """Fee settings at and around the bounds; quotes, fee arithmetic and conversions under each of them."""
    views = VIEWS
    compare_coins = False
    watch = ('owner', 'alice', 'bob')
    conns = (('TK1', 500000, 10000, None), ('TK2', 200000, 4000, None))

    def setup(self):
        return Market.setup(self) + [tx('owner', C, 'transferManagement', _newManager='@bob'),
                                     tx('bob', C, 'acceptManagement')]

    def alphabet(self, M, depth):
        m = self.maxfee
        for f in sorted({-1, 0, 1, 999, m // 2, m - 1, m, m + 1, PPM, PPM + 1, 2 ** 64}):
            yield tx('owner', C, 'setConversionFee', _conversionFee=f)
            if f in (1, m, m + 1):
                yield tx('bob', C, 'setConversionFee', _conversionFee=f)
        yield tx('alice', C, 'setConversionFee', _conversionFee=0)
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 1234)
        yield convert('alice', ('FT1', 'FT1', 'TK1'), 567)
        yield convert('alice', ('TK2', 'FT1', 'TK1'), 89)
        yield update(C, 'owner')

    def probes(self, M, depth):
        for x in (0, 1, 2, 999, 1000, 1001, 10 ** 6, 10 ** 6 + 1, 123456789, 10 ** 24 + 7):
            for m in (0, 1, 2, 3):
                yield q(C, 'getFinalAmount', _amount=x, _magnitude=m)
        for a, b in (('TK1', 'FT1'), ('FT1', 'TK1'), ('TK1', 'TK2'), ('TK2', 'TK1'), ('FT1', 'TK2'), ('TK2', 'FT1')):
            for n in (1, 2, 10, 101, 1000, 5000):
                yield q(C, 'getReturn', _fromToken='@' + a, _toToken='@' + b, _amount=n)
        for p in (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK2'), ('TK2', 'FT1', 'TK1')):
            yield convert('alice', p, 777)

    def invariant(self, W):
        f, m = W.o(C, 'getConversionFee'), W.o(C, 'getMaxConversionFee')
        if m != self.maxfee or not 0 <= f <= m <= PPM:
            return 'fee %s with maximum %s (deployed with %s)' % (f, m, self.maxfee)
        return None

    def step_invariant(self, W, op, before, ok, ret, events):
        """gross return at zero fee -> net return and reported fee, from the event of the conversion."""
        if not ok or op[0] != 'tx' or op[3] != 'transfer':
            return None
        for e in events:
            if e.indexed[0].startswith('Conversion('):
                amount, net, fee = e.data[0], e.data[1], e.data[2]
                gross, f = net + fee, before[(A(C), 'getConversionFee')]
                mag = 2 if A('FT1') not in (e.indexed[1], e.indexed[2]) else 1
                if net != gross * (PPM - f) ** mag // PPM ** mag:
                    return 'gross %s, paid %s at fee %s ppm, magnitude %d' % (gross, net, f, mag)
                if fee < 0:
                    return 'negative fee'
        return None


class Alone(Fee):
    """The owner is also the manager, as after deployment, or holds neither role any more."""

    def setup(self):
        return Market.setup(self)

    def alphabet(self, M, depth):
        m = self.maxfee
        for who in ('owner', 'alice', 'bob'):
            for f in sorted({-1, 0, 1, m // 2, m - 1, m, m + 1, m + 2, 2 * m, 10 * m, PPM}):
                yield tx(who, C, 'setConversionFee', _conversionFee=f)
        yield tx('owner', C, 'transferManagement', _newManager='@bob')
        yield tx('bob', C, 'acceptManagement')
        yield tx('owner', C, 'transferOwnerShip', _newOwner='@bob')
        yield tx('bob', C, 'acceptOwnerShip')
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 1234)


class Install(Scenario):
    """The maximum fee given at deployment."""
    views = ('getConversionFee', 'getMaxConversionFee')
    compare_coins = False
    depth = {'quick': 1, 'thorough': 1}

    def setup(self):
        return [deploy('NET', 'NET', 'owner')] + registry() + tok('TK1', 'IRC', 10) + tok('FT1', 'FT', 10)

    def alphabet(self, M, depth):
        for f in (-2 ** 70, -1, 0, 1, 500000, PPM - 1, PPM, PPM + 1, 2 * PPM, 2 ** 70):
            yield deploy('CONV', C, 'owner', _token='@FT1', _registry='@REG1', _maxConversionFee=f,
                         _connectorToken='@TK1', _connectorWeight=5)


def tasks(tier):
    d = {'quick': 2, 'thorough': 3}
    for m in (0, 1, 30000, PPM - 1, PPM):
        yield Fee('max-%d' % m, maxfee=m, depth=d, parts={'quick': 2, 'thorough': 8})
    yield Fee('virtual', maxfee=50000, depth=d, parts={'quick': 2, 'thorough': 8},
              conns=(('TK1', 500000, 10000, 20000), ('TK2', 200000, 4000, 3000)))
    yield Fee('large', maxfee=999999, depth=d, parts={'quick': 2, 'thorough': 8}, unit=BIG)
    for m in (1, 3000, 499999):
        yield Alone('alone-%d' % m, maxfee=m, depth={'quick': 1, 'thorough': 4}, parts={'quick': 1, 'thorough': 8})
        yield Alone('alone-inactive-%d' % m, maxfee=m, activate=False, depth={'quick': 1, 'thorough': 3}, parts={'quick': 1, 'thorough': 8})
    yield Install('install')
