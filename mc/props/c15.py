"""C15: trading cycles never profit at the reserves' expense; a connector is exhausted only by selling all."""
from ..chain import Address
from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'getConnectorBalance')
ASSUMPTIONS = ['the traders together are alice and bob; coins and ICX tokens count as one asset (1:1 by deposit/withdraw)',
               'with several converters the profit of one converter may be the loss of another (arbitrage), so the '
               'comparison is then made per converter: its connector balances and the supply of its token']


class Cycle(Market):
    views = VIEWS
    watch = ('owner', 'alice', 'bob')
    coins = {'owner': 10 ** 9, 'alice': 100000, 'bob': 100000}
    paths = ()
    amounts = (1, 37, 'half', 'all', 'gain')
    single = True
    whole = False           # alice holds the entire supply
    replays = 3
    start = None
    bobtoo = False

    def setup(self):
        ops = Market.setup(self)
        if self.whole:
            h = min(self.hold, self.supply // 4)
            if self.supply - h:
                ops.append(tx('owner', 'FT1', 'transfer', _to='@alice', _value=self.supply - h))
        if self.bobtoo:
            for t in sorted({p[0] for p in self.paths} - {'ICXT'}):
                ops.append(tx('alice', t, 'transfer', _to='@bob', _value=min(self.hold, self.supply // 4) // 2
                              if t == 'FT1' else self.hold // 2))
        return ops

    def alphabet(self, M, depth):
        for p in self.paths:
            if self.bobtoo:
                who = 'bob' if p in self.paths[::2] else 'alice'
            else:
                who = 'alice'
            b = bal(M, p[0], who)
            c = b if p[0] != 'ICXT' else coins(M, who)
            # 'gain': everything won so far, so that a cycle comes back exactly to where it began
            had = (type(self).coins['alice'] if p[0] == 'ICXT' else min(self.hold, self.supply // 4) if p[0] == 'FT1' else self.hold)
            g = c - had if self.unit == 1 else Exact(c.raw - had * self.unit, self.unit)
            for n in sorted({x if isinstance(x, int) else c // 2 if x == 'half' else c if x == 'all' else
                             g if x == 'gain' else c - 1 for x in self.amounts}):
                if 0 < n <= c:
                    if p[0] == 'ICXT':
                        yield convert_coin(who, p, n)
                    else:
                        yield convert(who, p, n)

    def holdings(self, W):
        """What the traders own (single converter) or what each converter owns and owes."""
        out = {}
        if self.single:
            for t in ('TK1', 'TK2', 'ICXT', 'FT1'):
                if A(t) in W.kinds:
                    out[t] = sum(W.bal(t, w) for w in ('alice', 'bob'))
            out['ICXT'] = out.get('ICXT', 0) + sum(W.obs[(A(w), 'icx')] for w in ('alice', 'bob'))
            return {'traders': out}
        for c, conns, ft in (('CONV1', self.conns, 'FT1'), ('CONV2', self.conns2, 'FT2')):
            d = {x[0]: -W.o(c, 'getConnectorBalance', x[0]) for x in conns}
            d[ft] = W.o(ft, 'totalSupply')
            out[c] = d
        return out

    def profit(self, before, now):
        for k, b in before.items():
            n = now[k]
            if all(n[x] >= b[x] for x in b) and any(n[x] > b[x] for x in b):
                return '%s: from %s to %s' % ('the traders gained' if k == 'traders' else
                                              'lost by ' + k + ' (connector balances negated)', b, n)
        return None

    def before_step(self, W, op):
        return self.holdings(W)

    def invariant(self, W):
        h = self.holdings(W)
        if self.start is None:
            self.start = h
        return self.profit(self.start, h)

    def step_invariant(self, W, op, before, ok, ret, events):
        if not ok:
            return None
        x = self.profit(W.ctx, self.holdings(W))
        if x:
            return x
        for c, conns, ft in (('CONV1', self.conns, 'FT1'), ('CONV2', self.conns2, 'FT2')):
            for t in conns:
                k = (A(c), 'getConnectorBalance', A(t[0]))
                if k in W.obs and before[k] > 0 and W.obs[k] <= 0:
                    if W.o(ft, 'totalSupply') != 0 or before[(A(ft), 'totalSupply')] <= 0:
                        return 'connector %s of %s exhausted while %s tokens are left' % (t[0], c,
                                                                                         W.o(ft, 'totalSupply'))
        return None


SIX = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK2', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK2'), ('TK1', 'FT1', 'TK2'),
       ('TK2', 'FT1', 'TK1'))
TWO = SIX[:2]
COINS = (('ICXT', 'FT1', 'FT1'), ('FT1', 'FT1', 'ICXT'), ('ICXT', 'FT1', 'TK1'), ('TK1', 'FT1', 'ICXT'))


def tasks(tier):
    d3 = {'quick': 3, 'thorough': 4}
    d4 = {'quick': 4, 'thorough': 6}
    P = {'quick': 4, 'thorough': 24}
    pair = lambda a, b, wa, wb, va=None, vb=None: (('TK1', wa, a, va), ('TK2', wb, b, vb))
    yield Cycle('two-connectors', paths=SIX, conns=pair(10000, 4000, 500000, 200000), depth=d3, parts=P)
    yield Cycle('two-connectors-fee', paths=SIX, conns=pair(10000, 4000, 300000, 700000), fee=2000, depth=d3, parts=P)
    yield Cycle('two-virtual', paths=SIX, conns=pair(10000, 4000, 500000, 200000, 25000, 8000), depth=d3, parts=P)
    yield Cycle('mixed', paths=SIX, conns=pair(9999, 4001, 123457, 654321, None, 5003), depth=d3, parts=P)
    yield Cycle('equal-weights', paths=SIX, conns=pair(777, 4001, 250000, 250000), depth=d3, parts=P, bobtoo=True)
    # trades that are small against the reserves, repeated and taken back
    eq = ('half', 900, 5, 'gain')
    yield Cycle('small-trades', paths=SIX[4:], conns=pair(10 ** 6, 10 ** 8, 300000, 300000), hold=4000, amounts=eq, depth=d4,
                parts=P)
    yield Cycle('small-trades-weights', paths=SIX[4:], conns=pair(10 ** 6, 10 ** 8, 300000, 150000), hold=4000, amounts=eq,
                depth=d4, parts=P)
    yield Cycle('small-trades-single', paths=TWO, conns=pair(10 ** 6, 10 ** 8, 300000, 300000), supply=10 ** 7, hold=4000,
                amounts=eq, depth=d4, parts=P)
    yield Cycle('large', paths=SIX, conns=pair(10000, 4000, 500000, 200000), fee=2000, depth=d3, parts=P, unit=BIG)
    yield Cycle('large-coins', paths=COINS, conns=(('TK1', 400000, 5000, None), ('ICXT', 350000, 3000, 5000)), depth=d3, parts=P,
                unit=BIG)
    yield Cycle('coins', paths=COINS, conns=(('TK1', 400000, 5000, None), ('ICXT', 350000, 3000, None)), depth=d3,
                parts=P)
    for i, (w, b, s) in enumerate(((500000, 10000, 20000), (1000000, 7000, 20001), (10, 9000, 30000), (999999, 50, 80),
                                   (100000, 10 ** 6, 900))):
        yield Cycle('one-connector-%d' % i, paths=TWO, conns=(('TK1', w, b, None),), supply=s, depth=d4, parts=1)
    # tiny pools: rounding dominates; the whole supply may be sold
    n = 0
    for b in (1, 2, 5):
        for s in (4, 9):
            for w in (200000, 500000, 1000000):
                n += 1
                yield Cycle('tiny-%d' % n, paths=TWO, conns=(('TK1', w, b, None),), supply=s, whole=True, hold=9,
                            amounts=(1, 2, 3, 'all', 'most'), depth=d3, parts=1)
    yield Cycle('tiny-two', paths=SIX, conns=pair(3, 7, 400000, 350000), supply=8, whole=True, hold=9,
                amounts=(1, 2, 'all', 'most'), depth=d3, parts=P)
    yield Cycle('sell-all', paths=SIX, conns=pair(3000, 70000, 300000, 600000), supply=800, whole=True, hold=900,
                amounts=(1, 'all', 'most'), depth=d3, parts=P)
    for k, (s, w, b, u) in enumerate(((2001, 500000, 9000, 1), (10 ** 6, 300000, 4000, 1), (50000, 1000000, 7 * 10 ** 6, 1),
                                      (20000, 250000, 30000, BIG))):
        yield Cycle('sell-out-%d' % k, paths=TWO, conns=(('TK1', w, b, None),), supply=s, whole=True, hold=900,
                    amounts=(1, 'half', 'all', 'most'), depth=d3, parts=1, unit=u)
    yield Cycle('two-converters', single=False, conns=pair(10000, 4000, 500000, 200000),
                conns2=(('FT1', 400000, 4000, None), ('TK1', 600000, 8000, None)),
                paths=(('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('FT2', 'FT2', 'FT1', 'FT1', 'TK1'),
                       ('FT1', 'FT2', 'TK1'), ('TK1', 'FT1', 'FT1'), ('TK1', 'FT2', 'FT1', 'FT1', 'TK2'),
                       ('TK2', 'FT1', 'TK1')), amounts=(1, 500, 'all'), depth=d3, parts=P)
