"""C23: virtual balances are tracked exactly."""
import json

from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'getConnectorBalance', 'getConnector')


class Virtual(Market):
    views = VIEWS
    watch = ('owner', 'alice')
    paths = ()
    amounts = (1, 90, 2500)
    admin = True

    def alphabet(self, M, depth):
        for p in self.paths:
            for n in self.amounts:
                if p[0] == 'ICXT':
                    yield convert_coin('alice', p, n)
                else:
                    yield convert('alice', p, n)
        if self.admin:
            w = dict((c[0], c[1]) for c in self.conns)
            for t in ('TK1', 'TK2'):
                for on, vb in ((True, 50000), (True, 500), (False, 777), (True, 1), (True, 0)):
                    yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@' + t, _weight=w[t],
                             _enableVirtualBalance=on, _virtualBalance=vb)

    def probes(self, M, depth):
        for p in self.paths:
            for n in (1, 1000):
                yield q('CONV1', 'getReturn', _fromToken='@' + p[0], _toToken='@' + p[2], _amount=n)
        for t in ('TK1', 'TK2', 'ICXT', 'FT1'):
            yield q('CONV1', 'getConnectorBalance', _connectorToken='@' + t)
            yield q('CONV1', 'getConnector', _address='@' + t)
        # real holdings do not matter in virtual mode: nobody can even change them
        yield tx('owner', 'TK1', 'transfer', _to='@CONV1', _value=500)

    def step_invariant(self, W, op, before, ok, ret, events):
        """The accounting identity, from real observations only: in virtual mode the virtual balance moves exactly as
        the real holdings do; in real mode the stored virtual balance does not move."""
        if not ok or (op[0] == 'tx' and op[3] == 'updateConnector'):
            return None
        for c in self.conns:
            k = (A('CONV1'), 'getConnector', A(c[0]))
            a, b = before[k], W.obs[k]
            moved = W.bal(c[0], 'CONV1') - before[(A(c[0]), 'balanceOf', A('CONV1'))]
            dv = b['virtualBalance'] - a['virtualBalance']
            if dv != (moved if a['isVirtualBalanceEnabled'] else 0):
                return 'connector %s: virtual balance moved by %d, real holdings by %d (virtual mode %s)' % (
                    c[0], dv, moved, a['isVirtualBalanceEnabled'])
            kb = (A('CONV1'), 'getConnectorBalance', A(c[0]))
            want = b['virtualBalance'] if b['isVirtualBalanceEnabled'] else W.bal(c[0], 'CONV1')
            if W.obs[kb] != want:
                return 'connector %s reports a balance of %s instead of %s' % (c[0], W.obs[kb], want)
        return None


PATHS = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK2', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK2'), ('TK1', 'FT1', 'TK2'),
         ('TK2', 'FT1', 'TK1'), ('TK1', 'FT1', 'ICXT'), ('ICXT', 'FT1', 'TK2'))


class Cover(Market):
    """Payouts from a virtual-mode connector exactly at, just below and just above its real holdings."""
    views = VIEWS
    watch = ('owner', 'alice')
    step_invariant = Virtual.step_invariant

    def alphabet(self, M, depth):
        if depth:
            return
        for a in ('FT1', 'TK1', 'TK2'):
            for b, real in (('TK1', 60), ('TK2', 90)):
                if a == b:
                    continue
                # the smallest amounts that give each payout around the real holdings
                seen = set()
                lo, hi = 1, 5000
                M_ = lambda n: (M.query(A('CONV1'), 'getReturn', {'_fromToken': A(a), '_toToken': A(b), '_amount': n})[1]
                                or {'amount': -1})['amount']
                while lo < hi:
                    mid = (lo + hi) // 2
                    if M_(mid) < real - 2:
                        lo = mid + 1
                    else:
                        hi = mid
                for n in range(lo, 5001):
                    r = M_(n)
                    if r > real + 2:
                        break
                    if r not in seen:
                        seen.add(r)
                        yield convert('alice', (a, 'FT1', b), n)


class Whole(Virtual):
    """One holder owns everything: the whole supply is sold into a connector at once or in steps, the last unit too,
    and bought back from nothing."""
    admin = False
    supply = 400

    def setup(self):
        ops = Market.setup(self)[:]
        b = self.supply - self.supply // 4
        i = next(i for i, o in enumerate(ops) if o[0] == 'tx' and o[3] == 'transfer' and o[2] == A('FT1'))
        ops.insert(i + 1, tx('owner', 'FT1', 'transfer', _to='@alice', _value=b))
        return ops

    def alphabet(self, M, depth):
        b = bal(M, 'FT1', 'alice')
        for t in ('TK1', 'TK2'):
            for n in sorted({1, b - 1, b, b // 2}):
                if 0 < n:
                    yield convert('alice', ('FT1', 'FT1', t), n)
            for n in (1, 100):
                yield convert('alice', (t, 'FT1', 'FT1'), n)
        yield tx('owner', 'FT1', 'transfer', _to='@alice', _value=bal(M, 'FT1', 'owner'))


class Wide(Virtual):
    """Virtual balances beyond the sizes of machine words."""
    around = 2 ** 128
    supply = 2 ** 100
    hold = 2 ** 90

    def setup(self):
        a = self.around
        ops = [deploy('NET', 'NET', 'owner')] + registry() + tok('TK1', 'IRC', 2 ** 254) + tok('TK2', 'IRC', 2 ** 254)
        ops += tok('FT1', 'FT', self.supply) + give('FT1', 'owner', ('alice', self.hold))
        for t in ('TK1', 'TK2'):
            ops += give(t, 'owner', ('alice', 2 ** 250))
        return ops + converter('CONV1', 'FT1', 'REG1', (('TK1', 500000, 2 ** 80, a - 1000), ('TK2', 400000, 2 ** 250, a + 1000)))

    def alphabet(self, M, depth):
        for p in (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('FT1', 'FT1', 'TK2'), ('TK2', 'FT1', 'TK1')):
            for n in (1, 999, 1001, self.hold // 7, self.around // 3):
                yield convert('alice', p, n)
        for n in (2 ** 53 + 1, 2 ** 64, 2 ** 128 - 1, 2 ** 128, 2 ** 200 + 1, 2 ** 255, 2 ** 256 - 1):
            yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@TK1', _weight=500000, _enableVirtualBalance=True,
                     _virtualBalance=n)


class Twins(Scenario):
    """The same history against a converter with small and one with large real holdings: prices must stay equal."""
    long_runs = False          # the two markets are served alternately
    views = ('balanceOf', 'totalSupply', 'getConnectorBalance')
    watch = ('owner', 'alice')
    max_connectors = 2
    supply = 20000
    conns = (('TK1', 500000, 9000, 25000), ('TK2', 200000, 4000, 9000))
    fee = 1000
    amounts = (1, 90, 2000)

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry() + tok('TK1', 'IRC', 10 ** 9) + tok('TK2', 'IRC', 10 ** 9)
        for i in (1, 2):
            ops += tok('FT%d' % i, 'FT', self.supply) + give('FT%d' % i, 'owner', ('alice', 5000))
            ops += converter('CONV%d' % i, 'FT%d' % i, 'REG1', tuple((t, w, n * i * i, v) for t, w, n, v in self.conns),
                             fee=self.fee)
        return ops + give('TK1', 'owner', ('alice', 20000)) + give('TK2', 'owner', ('alice', 20000))

    SIDES = (('TK1', 'FT'), ('FT', 'TK1'), ('TK2', 'FT'), ('FT', 'TK2'), ('TK1', 'TK2'), ('TK2', 'TK1'))

    def quotes(self, W, i):
        out = []
        for a, b in self.SIDES:
            for n in (1, 1000):
                out.append(W.chain.query(A('CONV%d' % i), 'getReturn', {
                    '_fromToken': A('FT%d' % i if a == 'FT' else a), '_toToken': A('FT%d' % i if b == 'FT' else b),
                    '_amount': n}))
        return out

    def alphabet(self, M, depth):
        if depth % 2 == 0:
            for a, b in self.SIDES:
                for n in self.amounts:
                    yield self.trade(1, a, b, n)

    def trade(self, i, a, b, n):
        l = lambda x: 'FT%d' % i if x == 'FT' else x
        return convert('alice', (l(a), 'FT%d' % i, l(b)), n)

    def step_invariant(self, W, op, before, ok, ret, events):
        """Mirror the trade at the rich twin at once, compare all quotes, then go on from the poor one's state only
        if both did the same."""
        if not ok:
            return None
        d = json.loads(op[4]['_data'])
        labels = [LABEL[str(x)] for x in d['path'].split(',')]
        a, b = ('FT' if x == 'FT1' else x for x in (labels[0], labels[2]))
        saved = W.chain.kv.d
        r = W.chain.tx(*self.trade(2, a, b, op[4]['_value'])[1:])
        try:
            if not r.ok:
                return 'the trade was executed with small but refused with large real holdings: %s' % r.err
            x, y = self.quotes(W, 1), self.quotes(W, 2)
            if x != y:
                return 'prices differ between small and large real holdings: %s / %s' % (x, y)
        finally:
            W.chain.kv.d = saved
        return None


from ..explore import NAMES as _N  # noqa: E402

LABEL = {str(v): k for k, v in _N.items()}


def tasks(tier):
    d = {'quick': 2, 'thorough': 3}
    P = {'quick': 4, 'thorough': 24}
    v3 = (('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, None))
    yield Virtual('virtual', paths=PATHS, conns=v3, depth=d, parts=P)
    yield Virtual('virtual-fee', paths=PATHS, conns=v3, fee=20000, depth=d, parts=P)
    # real holdings far below the virtual balance: payouts that cannot be covered
    yield Virtual('thin', paths=PATHS, amounts=(1, 400, 4000), depth=d, parts=P,
                  conns=(('TK1', 500000, 60, 90000), ('TK2', 200000, 0, 70000), ('ICXT', 300000, 6000, 200)))
    yield Virtual('huge-holdings', paths=PATHS[:6], depth=d, parts=P,
                  conns=(('TK1', 400000, 10 ** 8, 5000), ('TK2', 600000, 10 ** 8, 7000)))
    yield Virtual('real', paths=PATHS, conns=tuple((t, w, n, None) for t, w, n, v in v3), depth=d, parts=P)
    yield Virtual('deep', paths=PATHS[:6], admin=False, amounts=(700,), conns=v3, depth={'quick': 4, 'thorough': 6},
                  parts=P)
    for k in (64, 128, 160, 192):
        yield Wide('wide-%d' % k, around=2 ** k, conns=(('TK1',), ('TK2',)), supply=2 ** (k - 28), hold=2 ** (k - 38),
                   depth=d if k == 128 else {'quick': 1, 'thorough': 3}, parts={'quick': 1, 'thorough': 8})
    for i, v in enumerate(((('TK1', 500000, 90, 25), ('TK2', 200000, 400, 90)), (('TK1', 600000, 90, 60), ('TK2', 400000, 4000, 400)),
                           (('TK1', 500000, 90, None), ('TK2', 500000, 700, 700)))):
        yield Whole('whole-%d' % i, paths=PATHS[:6], conns=v, depth={'quick': 2, 'thorough': 5}, parts={'quick': 1, 'thorough': 8})
    cov = (('TK1', 500000, 60, 1000), ('TK2', 200000, 90, 9000))
    yield Cover('cover', conns=cov, supply=20000, depth={'quick': 1, 'thorough': 1})
    yield Cover('cover-fee', conns=cov, supply=20000, fee=1000, depth={'quick': 1, 'thorough': 1})
    yield Twins('twins', depth={'quick': 1, 'thorough': 1})
