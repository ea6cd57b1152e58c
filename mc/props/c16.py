"""C16: the return formulas against exact values.

The exact value is computed with 110-digit decimal arithmetic ((n/d)^(a/b) = exp(a/b ln(n/d)), both functions
correctly rounded by the decimal module); the formula's integer result may never exceed it and may fall short of
it by at most one unit plus a stated relative error.
"""
import importlib
from decimal import Decimal as D, getcontext
from itertools import product

from ..cases import Cases
from ..explore import Hang, fresh_formula

LEVEL = 'model_checking'
RULE = ('exhaustive enumeration of the stated finite input domains (small domains completely; all combinations of the '
        'listed boundary magnitudes), of all ordered pairs and triples of calls from a fixed set for history '
        'independence; every case is evaluated by the real formula object and compared with 110-digit arithmetic; '
        'states = cases, transitions = formula calls')
ASSUMPTIONS = ['accuracy (as opposed to never exceeding the exact value) of a purchase is claimed for a growth factor '
               '(1+deposit/balance)^weight of at most e^16; beyond it see the known finding',
               'the oracle trusts the ln and exp of the Python decimal module (mpdecimal) at 110 digits']



def precision():
    # per thread, hence set again in every worker
    getcontext().prec = 110
    getcontext().Emax = 10 ** 9
    getcontext().Emin = -10 ** 9


precision()
MAXN = 1 << 129
PPM = 10 ** 6
UP = D(10) ** -60
_ln = {}


def ln(n, d):
    k = (n, d)
    r = _ln.get(k)
    if r is None:
        if len(_ln) > 200000:
            _ln.clear()
        r = _ln[k] = (D(n) / D(d)).ln()
    return r


class Formula(Cases):
    def prepare(self, tier):
        precision()
        self.f = fresh_formula()

    def ask(self, name, *a):
        self.res['transitions'] += 1
        try:
            r = getattr(self.f, name)(*a)
        except (KeyboardInterrupt, SystemExit, MemoryError, Hang):
            raise
        except BaseException:
            self.res['fail'] += 1
            return None
        self.res['ok'] += 1
        return r

    def judge(self, what, r, exact, slack):
        """None or what is wrong with result r for the exact real value."""
        self.res['queries'] += 1
        if type(r) is not int:
            return ('type', '%s returned %r' % (what, r))
        if r < 0:
            return ('negative', '%s returned %d' % (what, r))
        if D(r) > exact * (1 + UP):
            return ('above', '%s returned %d, above the exact value %s' % (what, r, '%.40g' % exact))
        if exact - r > 1 + slack:
            return ('below', '%s returned %d, the exact value is %s' % (what, r, '%.40g' % exact))
        return None

    def purchase(self, S, B, w, x):
        r = self.ask('calculate_purchase_return', S, B, w, x)
        if r is None:
            return 'refused', None
        L = ln(B + x, B) * w / PPM
        if w == PPM:
            exact, slack = D(S * x) / D(B), D(0)
        else:
            exact = D(S) * (L.exp() - 1)
            slack = (S + exact) * D('1e-33') if L < 16 else (S + exact)
        return r, self.judge('purchase(supply=%d, balance=%d, weight=%d, deposit=%d)' % (S, B, w, x), r, exact, slack)

    def sale(self, S, B, w, x):
        r = self.ask('calculate_sale_return', S, B, w, x)
        if r is None:
            return 'refused', None
        if x == S:
            exact, slack = D(B), D(-1)
        elif w == PPM:
            exact, slack = D(B * x) / D(S), D(0)
        else:
            L = ln(S, S - x) * PPM / w
            exact = D(B) * (1 - (-L).exp())
            slack = B * (D('1e-33') * PPM / w if L < 16 else D('1e-9'))
        return r, self.judge('sale(supply=%d, balance=%d, weight=%d, sold=%d)' % (S, B, w, x), r, exact, slack)

    def cross(self, B1, w1, B2, w2, x):
        r = self.ask('calculate_cross_connector_return', B1, w1, B2, w2, x)
        if r is None:
            return 'refused', None
        if w1 == w2:
            exact, slack = D(B2 * x) / D(B1 + x), D(0)
        else:
            L = ln(B1 + x, B1) * w1 / w2
            exact = D(B2) * (1 - (-L).exp())
            slack = B2 * (D('1e-33') * max(1, D(w1) / w2) if L < 16 else D('1e-9'))
        return r, self.judge('cross(balance=%d, weight=%d, to balance=%d, to weight=%d, amount=%d)' % (B1, w1, B2, w2, x),
                             r, exact, slack)

    # a chain of amounts for fixed other arguments: value, zero, monotony, acceptance
    def chain(self, fn, args, amounts, accept, growth=None):
        prev = 0
        for x in amounts:
            r, d = fn(*args, x)
            if d is not None:
                return d
            ok = accept(x)
            name = fn.__name__ + repr(args + (x,))
            if r == 'refused':
                if ok:
                    return ('refused', '%s was refused' % name)
                continue
            if not ok:
                return ('accepted', '%s is out of range but returned %s' % (name, r))
            if x == 0 and r != 0:
                return ('zero', '%s returned %s for a zero amount' % (name, r))
            if r < prev - (self.wobble(fn, args, x, prev) if growth else 0):
                return ('monotone', '%s returned %d, less than %d for a smaller amount' % (name, r, prev))
            prev = max(prev, r)
        self.outcomes.add((fn.__name__, args[:1]))
        return None

    @staticmethod
    def wobble(fn, args, x, prev):
        """Permitted dip: the approximation error."""
        if fn.__name__ == 'purchase':
            S, B, w = args
            return 1 + int((S + prev) * D('1e-33')) if (B + x) ** 1 and ln(B + x, B) * w / PPM < 16 else prev
        if fn.__name__ == 'sale':
            S, B, w = args
            L = ln(S, S - x) * PPM / w if x < S else 99
            return 1 + int(B * (D('1e-33') * PPM / w if L < 16 else D('1e-9')))
        B1, w1, B2, w2 = args
        L = ln(B1 + x, B1) * w1 / w2
        return 1 + int(B2 * (D('1e-33') * max(1, D(w1) / w2) if L < 16 else D('1e-9')))


WS = (1, 10, 1000, 100000, 250000, 333333, 500000, 750000, 999999, 1000000)


class Small(Formula):
    """Every supply, balance and amount of a small domain, in order (monotony holds exactly here)."""
    which = 'purchase'
    parts = {'quick': 4, 'thorough': 16}
    bound = {'quick': 11, 'thorough': 24}
    amount = {'quick': 40, 'thorough': 120}

    def cases(self, tier):
        n = self.bound[tier]
        self.amounts = range(0, self.amount[tier] + 1)
        if self.which == 'cross':
            for c in product(range(1, n), WS[::2], range(1, n), WS[1::2]):
                yield c
            # equal weights and weights in simple proportions
            for a, b in ((300000, 300000), (400000, 200000), (200000, 400000), (600000, 200000), (200000, 600000),
                         (1000000, 500000), (500000, 1000000), (300000, 200000), (2, 1), (750000, 250000), (250000, 1000000)):
                for c in product(range(1, n), (a,), range(1, n), (b,)):
                    yield c
        else:
            for c in product(range(1, n + 3), range(1, n + 3), WS):
                yield c

    def check(self, c):
        if self.which == 'purchase':
            return self.chain(self.purchase, c, self.amounts, lambda x: True)
        if self.which == 'sale':
            return self.chain(self.sale, c, range(0, c[0] + 3), lambda x: x <= c[0])
        return self.chain(self.cross, c, self.amounts, lambda x: True)

    def describe(self, c):
        return '%s%s' % (self.which, c)


TOP = MAXN - 1
MAG = (1, 7, 1000, 10 ** 6 + 3, 10 ** 12, 10 ** 18, 10 ** 21 + 1, 10 ** 24, 10 ** 27 + 5, 1 << 100, 10 ** 33, 1 << 120)


class Large(Formula):
    """All combinations of boundary magnitudes, with chains of amounts around the method switches."""
    which = 'purchase'
    parts = {'quick': 8, 'thorough': 32}

    def cases(self, tier):
        m = MAG + (3, 10 ** 9 + 7, 1 << 64, 10 ** 30, (1 << 127) + 1) if tier == 'thorough' else MAG
        if self.which == 'cross':
            ws = ((1, 1000000), (1000, 500000), (100000, 333333), (250000, 250000), (500000, 499999), (900000, 100),
                  (1000000, 1), (1000000, 1000000), (600000, 400000), (10, 20), (400000, 200000), (200000, 400000), (600000, 200000))
            for c in product(m, ws, m):
                yield (c[0], c[1][0], c[2], c[1][1])
        else:
            for c in product(m, m, WS + (50000, 900000, 123457)):
                yield c

    def amounts(self, base):
        """Amounts relative to the balance: tiny, the log switch at a ratio of e, powers, the very top."""
        e = base * 1718281828459045235360287471352662497757 // 10 ** 39
        xs = {0, 1, 2, 3, base // 10 ** 6, base // 1000, base // 7, base // 2, base - 1, base, base + 1, e - 1, e, e + 1,
              e + 2, 3 * base, 7 * base, 50 * base, 1000 * base, 10 ** 6 * base, 10 ** 12 * base, 10 ** 18 * base,
              10 ** 24 * base, TOP - base - 1, TOP - base, TOP - base + 1, TOP}
        return sorted(x for x in xs if x >= 0)

    def check(self, c):
        if self.which == 'purchase':
            S, B, w = c
            return self.chain(self.purchase, c, self.amounts(B), lambda x: x == 0 or w == PPM or B + x < MAXN, True)
        if self.which == 'sale':
            S, B, w = c
            xs = {0, 1, 2, S // 10 ** 9, S // 10 ** 6, S // 1000, S // 10, S // 3, S // 2, S // 2 + 1, S * 9 // 10,
                  S * 632120558828557 // 10 ** 15, S - S // 1000, S - S // 10 ** 9, S - 2, S - 1, S, S + 1, 2 * S}
            return self.chain(self.sale, c, sorted(x for x in xs if x >= 0), lambda x: x <= S, True)
        B1, w1, B2, w2 = c
        return self.chain(self.cross, c, self.amounts(B1), lambda x: w1 == w2 or B1 + x < MAXN, True)

    def describe(self, c):
        return '%s%s' % (self.which, c)


class Weights(Large):
    """Every per cent of weight (every five per cent in pairs), at a few states of different scale."""
    which = 'all'

    def cases(self, tier):
        step = 10000 if tier == 'quick' else 2000
        for S, B in ((1000, 700), (10 ** 18 + 3, 10 ** 17 + 9), (12345, 10 ** 21)):
            for w in range(step, PPM + 1, step):
                yield ('purchase', S, B, w)
                yield ('sale', S, B, w)
        step *= 5
        for B1, B2 in ((900, 1300), (10 ** 19 + 7, 10 ** 18 + 1)):
            for w1 in range(step, PPM + 1, step):
                for w2 in range(step, PPM + 1, step):
                    yield ('cross', B1, w1, B2, w2)

    def check(self, c):
        self.which = c[0]
        return Large.check(self, c[1:])

    def describe(self, c):
        return '%s%s' % (c[0], c[1:])


class Invalid(Formula):
    """Inputs outside the range are refused."""

    def cases(self, tier):
        bad0 = (0, -1, -10 ** 18)
        badw = (0, -1, 1000001, 2000000, -500000)
        for S, B, w, x in product((1, 10 ** 18), (1, 10 ** 18), (1, 500000, 1000000), (0, 1, 10 ** 6)):
            for b in bad0:
                yield ('calculate_purchase_return', b, B, w, x)
                yield ('calculate_purchase_return', S, b, w, x)
                yield ('calculate_sale_return', b, B, w, x)
                yield ('calculate_sale_return', S, b, w, x)
                yield ('calculate_cross_connector_return', b, w, B, 500000, x)
                yield ('calculate_cross_connector_return', S, w, b, 500000, x)
                yield ('calculate_cross_connector_return', b, w, B, w, x)
                yield ('calculate_cross_connector_return', S, w, b, w, x)
            for b in badw:
                yield ('calculate_purchase_return', S, B, b, x)
                yield ('calculate_sale_return', S, B, b, x)
                yield ('calculate_cross_connector_return', S, b, B, w, x)
                yield ('calculate_cross_connector_return', S, w, B, b, x)
                yield ('calculate_cross_connector_return', S, b, B, b, x)
            yield ('calculate_sale_return', S, B, w, S + 1)
            yield ('calculate_sale_return', S, B, w, 2 * S)
        for w in (1, 500000, 999999):
            for over in (0, 1, 10 ** 30):
                yield ('calculate_purchase_return', 10 ** 18, 10 ** 18, w, MAXN - 10 ** 18 + over)
                yield ('calculate_purchase_return', 10 ** 18, MAXN - 1 + over, w, 1)
                yield ('calculate_sale_return', MAXN + over, 10 ** 18, w, 5)
                yield ('calculate_cross_connector_return', 10 ** 18, w, 10 ** 18, w + 1, MAXN - 10 ** 18 + over)

    def check(self, c):
        r = self.ask(*c)
        if r is not None:
            return ('accepted', '%s(%s) is out of range but returned %s' % (c[0], ', '.join(map(str, c[1:])), r))
        return None


CALLS = [('calculate_purchase_return', 10 ** 18, 10 ** 18, 500000, 10 ** 17),
         ('calculate_purchase_return', 10 ** 18, 10 ** 18, 500000, 10 ** 17 + 1),
         ('calculate_purchase_return', 10 ** 18, 10 ** 18, 1000000, 10 ** 17),
         ('calculate_purchase_return', 10 ** 40, 10 ** 36, 500000, 10 ** 33),
         ('calculate_purchase_return', 10 ** 40, 10 ** 36, 500000, 10 ** 33 + 10 ** 9),
         ('calculate_purchase_return', 5, 7, 1, 10 ** 30), ('calculate_purchase_return', 5, 7, 900000, 10 ** 30),
         ('calculate_purchase_return', 0, 7, 900000, 5), ('calculate_purchase_return', 10 ** 9, 10 ** 9, 999999, 0),
         ('calculate_purchase_return', 1, 1, 999999, MAXN),
         ('calculate_sale_return', 10 ** 18, 10 ** 18, 500000, 10 ** 17),
         ('calculate_sale_return', 10 ** 18, 10 ** 18, 10, 10 ** 17),
         ('calculate_sale_return', 10 ** 18, 10 ** 18, 500000, 10 ** 18),
         ('calculate_sale_return', 10 ** 18, 10 ** 18, 500000, 10 ** 18 + 1), ('calculate_sale_return', 5, 7, 1000000, 3),
         ('calculate_cross_connector_return', 10 ** 18, 500000, 10 ** 18, 300000, 10 ** 17),
         ('calculate_cross_connector_return', 10 ** 18, 300000, 10 ** 18, 500000, 10 ** 17),
         ('calculate_cross_connector_return', 10 ** 18, 300000, 10 ** 18, 300000, 10 ** 17),
         ('calculate_cross_connector_return', 10 ** 10, 1000000, 10 ** 20, 10, 10 ** 12),
         ('calculate_cross_connector_return', 10 ** 10, 1000000, 10 ** 20, 0, 10 ** 12)]


class History(Formula):
    """Every ordered triple (thorough: quadruple) of calls: the last result must be what a fresh object gives."""
    parts = {'quick': 1, 'thorough': 8}

    def prepare(self, tier):
        precision()
        self.want = []
        for c in CALLS:
            self.f = fresh_formula()
            self.want.append(self.ask(*c))
        self.f = fresh_formula()

    def cases(self, tier):
        return product(range(len(CALLS)), repeat=3 if tier == 'quick' else 4)

    def check(self, c):
        for i in c:
            r = self.ask(*CALLS[i])
            if r != self.want[i]:
                return ('history', 'after other calls %s gives %s instead of %s' % (CALLS[i], r, self.want[i]))
        return None

    def describe(self, c):
        return ' ; '.join('%s%s' % (CALLS[i][0], CALLS[i][1:]) for i in c)


class Beyond(Formula):
    """Purchases growing the supply by more than e^16 (known finding: far less than the exact value)."""

    def cases(self, tier):
        return [(10 ** 18, 10 ** 3, 900000, 10 ** 27), (10 ** 6, 1, 999999, 10 ** 30), (10 ** 18, 1, 500000, 10 ** 38)]

    def check(self, c):
        S, B, w, x = c
        r = self.ask('calculate_purchase_return', *c)
        exact = D(S) * ((ln(B + x, B) * w / PPM).exp() - 1)
        if r is None or D(r) >= exact * (1 - D('1e-9')) - 1:
            return None
        return ('below', 'purchase(supply=%d, balance=%d, weight=%d, deposit=%d) returned %d, the exact value is %s' %
                (c + (r, '%.6g' % exact)), 'purchase%s' % (c,))


def tasks(tier):
    for k in ('purchase', 'sale', 'cross'):
        yield Small('small-' + k, which=k)
        yield Large('large-' + k, which=k)
    yield Weights('weights')
    yield Invalid('invalid')
    yield History('history')
    yield Beyond('beyond-table')
