"""C08: connector configuration stays well-formed."""
from ..worlds import *

VIEWS = ('getConnector', 'getConnectorTokenCount', 'getConnectorAt', 'getConnectorBalance', 'isActive', 'getOwner',
         'getToken')
C = 'CONV1'


class Connectors(Scenario):
    views = VIEWS
    compare_coins = False
    watch = ('owner', 'alice')
    max_connectors = 5
    static = True
    first = ('TK1', 500000)

    def setup(self):
        o = 'owner'
        ops = [deploy('NET', 'NET', o)] + registry()
        for t in ('TK1', 'TK2', 'TK3'):
            ops += tok(t, 'IRC', 10 ** 6)
        ops += tok('FT1', 'FT', 1000) + tok('FT2', 'FT', 1000)
        ops += [deploy('CONV', C, o, _token='@FT1', _registry='@REG1', _maxConversionFee=1000,
                       _connectorToken='@' + self.first[0] if self.first else '@ZERO',
                       _connectorWeight=self.first[1] if self.first else 0)]
        if self.first:
            ops += give(self.first[0], o, (C, 77))
        ops += [tx(o, 'FT2', 'issue', _to='@CONV1', _amount=55)]        # held before it becomes a connector
        return ops + [tx(o, 'FT1', 'transferOwnerShip', _newOwner='@CONV1')]

    def alphabet(self, M, depth):
        used = sum(c[1] for c in M.c[A(C)]['conn'].values())
        left = PPM - used
        for t in ('TK1', 'TK2', 'TK3', 'FT2'):
            for w in sorted({1, 250000, left, left + 1}):
                yield tx('owner', C, 'addConnector', _token='@' + t, _weight=w, _enableVirtualBalance=t in ('TK2', 'FT2'))
        for t in ('TK1', 'TK2'):
            cur = M.c[A(C)]['conn'].get(A(t), (0, 0))[1]
            for w in sorted({1, 300000, cur + left, cur + left + 1}):
                yield tx('owner', C, 'updateConnector', _connectorToken='@' + t, _weight=w,
                         _enableVirtualBalance=w == 1, _virtualBalance=w // 2)
            for v in (True, False):
                yield tx('owner', C, 'disableConnectorPurchases', _connectorToken='@' + t, _disable=v)
        yield tx('owner', C, 'acceptTokenOwnership')
        yield tx('owner', C, 'transferTokenOwnership', _newOwner='@owner')
        yield tx('owner', 'FT1', 'acceptOwnerShip')
        yield RESTART

    def probes(self, M, depth):
        for t in ('CONV1', 'FT1', 'ZERO', 'TK1', 'TK3', 'NOWHERE', 'alice', 'NET', 'xCONV1', 'xFT1', 'xTK1'):
            for w in (1, PPM):
                yield tx('owner', C, 'addConnector', _token='@' + t, _weight=w, _enableVirtualBalance=w == 1)
        for w in (-1, 0, PPM + 1, 2 ** 70):
            yield tx('owner', C, 'addConnector', _token='@TK3', _weight=w, _enableVirtualBalance=True)
            for t in ('TK1', 'TK2'):
                yield tx('owner', C, 'updateConnector', _connectorToken='@' + t, _weight=w,
                         _enableVirtualBalance=True, _virtualBalance=9)
        for t in ('TK1', 'TK3', 'FT1', 'CONV1', 'NOWHERE', 'ZERO'):
            for vb in (0, 1, 10 ** 18):
                yield tx('owner', C, 'updateConnector', _connectorToken='@' + t, _weight=10,
                         _enableVirtualBalance=vb == 1, _virtualBalance=vb)
            yield tx('owner', C, 'disableConnectorPurchases', _connectorToken='@' + t, _disable=True)
        for who in ('alice', 'cowner', 'xCONV1'):
            yield tx(who, C, 'addConnector', _token='@TK3', _weight=1, _enableVirtualBalance=False)
            yield tx(who, C, 'updateConnector', _connectorToken='@TK1', _weight=1, _enableVirtualBalance=False,
                     _virtualBalance=0)
            yield tx(who, C, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)

    def invariant(self, W):
        ch = W.chain
        n = ch.query(A(C), 'getConnectorTokenCount')[1]
        if not isinstance(n, int):
            return 'connector count is %r' % (n,)
        toks, total = [], 0
        for i in range(n):
            ok, t = ch.query(A(C), 'getConnectorAt', {'_index': i})
            if not ok:
                return 'connector %d of %d cannot be read' % (i, n)
            c = ch.query(A(C), 'getConnector', {'_address': t})[1]
            if not c or not 1 <= c['weight'] <= PPM:
                return 'connector %s is %r' % (t, c)
            total += c['weight']
            toks.append(t)
        if len(set(toks)) != len(toks):
            return 'the same connector twice'
        if total > PPM:
            return 'weights sum to %d' % total
        if A(C) in toks or A('FT1') in toks:
            return 'the converter or its own token is a connector'
        return None

    def step_invariant(self, W, op, before, ok, ret, events):
        for i in range(self.max_connectors):
            k = (A(C), 'getConnectorAt', i)
            if isinstance(before.get(k), type(A('TK1'))) and W.obs[k] != before[k]:
                return 'connector %d changed from %s to %s' % (i, before[k], W.obs[k])
        return None


class Deploy(Scenario):
    """Installation parameters."""
    views = VIEWS + ('getRegistry', 'getMaxConversionFee', 'getPreviousRegistry', 'getConversionFee',
                     'isConversionsEnabled', 'isAllowRegistryUpdate')
    depth = {'quick': 1, 'thorough': 1}
    compare_coins = False
    max_connectors = 2

    def setup(self):
        return [deploy('NET', 'NET', 'owner')] + registry() + tok('TK1', 'IRC', 10) + tok('FT1', 'FT', 10)

    def alphabet(self, M, depth):
        for t in ('FT1', 'ZERO', 'TK1', 'CONV1', 'NOWHERE'):
            for r in ('REG1', 'ZERO', 'NOWHERE'):
                for c in ('TK1', 'ZERO', 'FT1', 'CONV1', None):
                    for w in (-1, 0, 1, PPM, PPM + 1):
                        yield deploy('CONV', 'CONV1', 'owner', _token='@' + t, _registry='@' + r,
                                     _maxConversionFee=1000, _connectorToken='@' + c if c else None,
                                     _connectorWeight=w)
        for f in (-1, 0, 1, PPM, PPM + 1, 2 ** 80):
            yield deploy('CONV', 'CONV1', 'alice', _token='@FT1', _registry='@REG1', _maxConversionFee=f,
                         _connectorToken='@TK1', _connectorWeight=5)


class Pair(Scenario):
    """Two converters sharing connector tokens: their configurations are independent."""
    views = VIEWS
    compare_coins = False
    max_connectors = 3

    def setup(self):
        o = 'owner'
        ops = [deploy('NET', 'NET', o)] + registry()
        for t in ('TK1', 'TK2'):
            ops += tok(t, 'IRC', 10 ** 6)
        for t, c, w in (('FT1', 'CONV1', 400000), ('FT2', 'CONV2', 900000)):
            ops += tok(t, 'FT', 1000)
            ops += [deploy('CONV', c, o, _token='@' + t, _registry='@REG1', _maxConversionFee=1000,
                           _connectorToken='@TK1', _connectorWeight=w)]
        return ops

    def alphabet(self, M, depth):
        for c in ('CONV1', 'CONV2'):
            for w in (100000, 600000):
                yield tx('owner', c, 'addConnector', _token='@TK2', _weight=w, _enableVirtualBalance=True)
                for t in ('TK1', 'TK2'):
                    yield tx('owner', c, 'updateConnector', _connectorToken='@' + t, _weight=w,
                             _enableVirtualBalance=True, _virtualBalance=w // 7)
            yield tx('owner', c, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
        yield RESTART


class Many(Connectors):
    """A converter with a dozen connectors."""
    n = 12
    max_connectors = 15

    def setup(self):
        o = 'owner'
        ops = [deploy('NET', 'NET', o)] + registry() + tok('FT1', 'FT', 1000)
        for i in range(16):
            ops += tok('T%02d' % i, 'IRC', 10 ** 6)
        ops.append(deploy('CONV', C, o, _token='@FT1', _registry='@REG1', _maxConversionFee=1000, _connectorToken='@ZERO',
                          _connectorWeight=0))
        for i in range(self.n):
            ops.append(tx(o, C, 'addConnector', _token='@T%02d' % i, _weight=1000 * (i + 1), _enableVirtualBalance=i % 2 == 0))
        return ops

    def alphabet(self, M, depth):
        used = sum(c[1] for c in M.c[A(C)]['conn'].values())
        left = PPM - used
        for t in ('T12', 'T13', 'T05'):
            for w in sorted({1, left, left + 1}):
                yield tx('owner', C, 'addConnector', _token='@' + t, _weight=w, _enableVirtualBalance=True)
        for t in ('T00', 'T07', 'T11', 'T12'):
            cur = M.c[A(C)]['conn'].get(A(t), (0, 0))[1]
            for w in sorted({1, cur + left, cur + left + 1}):
                yield tx('owner', C, 'updateConnector', _connectorToken='@' + t, _weight=w, _enableVirtualBalance=w == 1,
                         _virtualBalance=w // 2)
            yield tx('owner', C, 'disableConnectorPurchases', _connectorToken='@' + t, _disable=True)
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', C, 'acceptTokenOwnership')

    def probes(self, M, depth):
        return ()


def tasks(tier):
    d = {'quick': 3, 'thorough': 4}
    yield Connectors('connectors', depth=d, parts={'quick': 6, 'thorough': 16})
    yield Connectors('empty', depth=d, first=None, parts={'quick': 6, 'thorough': 16})
    yield Connectors('full', depth=d, first=('TK3', PPM), parts={'quick': 3, 'thorough': 8})
    yield Many('many', depth={'quick': 2, 'thorough': 3}, parts={'quick': 1, 'thorough': 4})
    yield Many('sixteen', n=15, max_connectors=17, depth={'quick': 1, 'thorough': 2})
    yield Deploy('install')
    yield Pair('pair', depth=d, parts={'quick': 2, 'thorough': 8})
