"""C11: a conversion never delivers less than the minimum return."""
import json

from ..chain import Address
from ..worlds import *
from .c14 import Chain11, COIN, GOOD

VIEWS = ('balanceOf', 'totalSupply', 'getConnectorBalance')
ASSUMPTIONS = ['"registered converters": the paths of this check use DEX converters only (hostile path elements are '
               'covered by C13)']


def expected(M, p, n):
    ok, r = M.query(A('NET'), 'getExpectedReturnByPath', {'_path': path(*p), '_amount': n})
    return r if ok else None


class MinReturn(Market):
    """Minimum returns around the achievable one, in every state reached by competing conversions."""
    views = VIEWS
    paths = ()
    watch = ('owner', 'alice', 'bob', 'zero')
    amounts = (1, 40, 1000)

    def alphabet(self, M, depth):
        # competing trades and price moves
        for p in self.paths[:4]:
            yield convert('alice', p, 300)
        yield tx('owner', 'CONV1', 'setConversionFee', _conversionFee=20000)
        yield tx('owner', 'FT1', 'transfer', _to='@bob', _value=10)

    def probes(self, M, depth):
        self.M = M
        for p in self.paths:
            for n in self.amounts:
                r = expected(M, p, n * self.unit)
                r = 5 if r is None else r
                for m in sorted({-1, 0, 1, r - 1, r, r + 1, 2 * r + 2, 10 ** 40, -10 ** 40}):
                    yield convert('alice', p, n, minr=m, target='bob' if n == 40 else None)
                    if p[0] == 'ICXT' and n == 1000:
                        yield convert_coin('alice', p, n, minr=m)
                        yield convert_coin('alice', p, n, minr=m, target='bob')
        for op in self.everyone():
            yield op
        p, n = self.paths[0], 40
        for raw in ('"5"', '1.5', 'null', 'true', 'false', '[1]', '{}', '"x"', '1e2', '-0', '0.0', 'NaN', 'Infinity'):
            yield tx('alice', p[0], 'transfer', _to='@NET', _value=n,
                     _data=('{"path": "%s", "minReturn": %s}' % (path(*p), raw)).encode())
        yield tx('alice', p[0], 'transfer', _to='@NET', _value=n, _data=('{"path": "%s"}' % path(*p)).encode())
        if self.paths[-1][0] == 'ICXT':
            yield tx('alice', 'NET', 'convert', 50, _path=path(*self.paths[-1]), _minReturn=Raw('zz'))
            yield tx('alice', 'NET', 'convert', 50, _path=path(*self.paths[-1]))
        # minimum at the converter itself, which only the network may ask for
        for m in ('0', '-1', '1', '"1"', 'null'):
            yield tx('alice', 'TK1', 'transfer', _to='@CONV1', _value=10,
                     _data=('{"toToken": "%s", "minReturn": %s}' % (A('FT1'), m)).encode())

    extra = (deploy('ACT', 'ACT1', 'bob', _mode='ok'), tx('owner', 'TK1', 'transfer', _to='@ACT1', _value=700),
             coin('owner', 'ACT1', 700))

    def everyone(self):
        """Every kind of requester and beneficiary."""
        M = self.M
        for p in (self.paths[0], self.paths[-1]):
            r = expected(M, p, 200 * self.unit)
            r = 5 if r is None else r
            for m in (r, r + 1):
                for t in ('ACT1', 'alice', 'owner', 'NET', 'CONV1', 'FT1', 'TK1', 'ICXT', 'NOWHERE', 'ZERO', 'zero'):
                    yield convert('alice', p, 200, minr=m, target=t)
                    if p[0] == 'ICXT':
                        yield convert_coin('alice', p, 200, minr=m, target=t)
                for t in (None, 'ACT1', 'bob'):
                    if p[0] == 'ICXT':
                        yield tx('bob', 'ACT1', 'run', _prog=prog(
                            ('NET', 'convertFor' if t else 'convert', [path(*p), m] + (['@' + t] if t else []), 200, True)))
                    elif p[0] == 'TK1':
                        yield tx('bob', 'ACT1', 'run', _prog=prog(
                            ('TK1', 'transfer', ['@NET', 200, convdata(p, m, t)], 0, True)))

    def step_invariant(self, W, op, before, ok, ret, events):
        if op[0] != 'tx':
            return None
        if op[3] == 'transfer' and op[4].get('_to') == A('NET'):
            d = json.loads(op[4]['_data'])
            mr, text, target, paid = d.get('minReturn'), d['path'], d.get('for'), op[4]['_value']
            target = Address.from_string(target) if target else op[1]
        elif op[3] in ('convert', 'convertFor'):
            mr, text, target, paid = op[4].get('_minReturn'), op[4]['_path'], op[4].get('_for', op[1]), op[5]
        else:
            return None
        if not ok:
            return None
        first, last = (Address.from_string(x) for x in (text.split(',')[0], text.split(',')[-1]))
        icx = last == A('ICXT')
        key = (target, 'icx') if icx else (last, 'balanceOf', target)
        got = W.obs[key] - before[key]
        if target == op[1] and ((first == last and not icx) or (icx and op[5])):
            got += paid
        if isinstance(mr, bool) or not isinstance(mr, int):
            mr = 1
        if got < mr or mr <= 0:
            return 'delivered %d although at least %d was requested' % (got, mr)
        return None


class Ten(MinReturn):
    """Paths of up to ten conversions."""
    setup = Chain11.setup
    n = 10
    coins = {'owner': 10 ** 9, 'alice': 100000}
    amounts = (5000,)
    paths = tuple(tuple(b[:2 * k + 1]) for k in (4, 6, 8, 9, 10) for b in (GOOD, COIN)) + (
        tuple(COIN[:2]) + tuple(GOOD[2:20]) + ('ICXT',), tuple(GOOD[:20]) + ('ICXT',), tuple(GOOD[:20]) + (GOOD[19],))

    def alphabet(self, M, depth):
        yield convert('alice', self.paths[2], 300)

    def probes(self, M, depth):
        for p in self.paths:
            for n in self.amounts:
                r = expected(M, p, n)
                r = 5 if r is None else r
                for m in (r, r + 1, r + 3):
                    yield convert('alice', p, n, minr=m)
                    if p[0] == 'ICXT':
                        yield convert_coin('alice', p, n, minr=m)


ONE = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('FT1', 'FT1', 'ICXT'),
       ('TK2', 'FT1', 'ICXT'), ('ICXT', 'FT1', 'FT1'))
TWO = (('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('FT2', 'FT2', 'FT1', 'FT1', 'ICXT'), ('FT1', 'FT2', 'TK1'),
       ('TK2', 'FT1', 'TK1', 'FT2', 'FT1'), ('ICXT', 'FT1', 'TK1', 'FT2', 'FT2'))
# the final token also somewhere before the end, where there is less of it
AGAIN = (('TK1', 'FT1', 'FT1', 'FT2', 'FT2', 'FT3', 'FT1'), ('TK2', 'FT1', 'TK1', 'FT2', 'FT1', 'FT3', 'TK1'),
         ('ICXT', 'FT1', 'FT1', 'FT3', 'TK1', 'FT2', 'FT1'), ('FT1', 'FT1', 'TK1', 'FT2', 'FT2', 'FT3', 'TK1'))
LONG = (('TK1', 'FT1', 'FT1', 'FT2', 'FT2', 'FT3', 'FT3'), ('FT3', 'FT3', 'FT1', 'FT2', 'TK1', 'FT1', 'ICXT'),
        ('ICXT', 'FT1', 'FT1', 'FT3', 'FT3', 'FT3', 'FT2', 'FT2', 'TK1'), ('FT1', 'FT3', 'FT2', 'FT2', 'TK1', 'FT1', 'FT1'))


def tasks(tier):
    d = {'quick': 2, 'thorough': 4}
    P = {'quick': 2, 'thorough': 6}
    c2 = (('FT1', 400000, 4000, None), ('TK1', 600000, 8000, 3000))
    yield MinReturn('one-hop', paths=ONE, depth=d, parts=P)
    yield MinReturn('one-hop-fee', paths=ONE, fee=300000, depth=d, parts=P)
    yield MinReturn('virtual', paths=ONE, depth=d, parts=P,
                    conns=(('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, 2000)))
    yield MinReturn('two-hops', paths=TWO, conns2=c2, depth=d, parts=P)
    # intermediate hops worth far less than the final minimum, and intermediate hops returning nothing
    yield MinReturn('shrink', paths=TWO, depth=d, parts=P,
                    conns=(('TK1', 500000, 10 ** 6, None), ('TK2', 200000, 4000, None), ('ICXT', 300000, 6000, None)),
                    conns2=(('FT1', 400000, 400, None), ('TK1', 500000, 2000, None)), supply2=10 ** 7)
    yield MinReturn('large', paths=ONE + TWO, conns2=c2, fee=1000, depth=d, parts=P, unit=BIG)
    # three and four hops, with hops in the middle worth much less (or more) than the outcome
    yield MinReturn('long', paths=LONG, conns2=c2, conns3=(('FT2', 500000, 5000, None), ('FT1', 300000, 1500, 2500)),
                    depth={'quick': 1, 'thorough': 3}, parts=P)
    yield MinReturn('long-shrink', paths=LONG, depth={'quick': 1, 'thorough': 3}, parts=P,
                    conns2=(('FT1', 400000, 400, None), ('TK1', 500000, 2000, None)), supply2=10 ** 4,
                    conns3=(('FT2', 500000, 100, None), ('FT1', 300000, 50, None)), supply3=10 ** 8)
    yield Ten('ten', depth={'quick': 1, 'thorough': 2})
    # the final token already lying in the network
    yield MinReturn('stray', paths=ONE[:4] + (('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('TK2', 'FT1', 'TK1')), conns2=c2, depth=d,
                    parts=P, extra=MinReturn.extra + tuple(
                        tx('alice', t, 'transfer', _to='@NET', _value=n, _data=b'conversionResult')
                        for t, n in (('TK1', 90), ('TK2', 400), ('FT1', 60), ('FT2', 3000), ('ICXT', 77))))
    yield MinReturn('again', paths=AGAIN, conns2=(('FT1', 300000, 900, None), ('TK1', 300000, 90, None)),
                    conns3=(('FT2', 300000, 100, None), ('FT1', 300000, 9000, None), ('TK1', 300000, 90000, None)),
                    supply2=6000, depth={'quick': 1, 'thorough': 3}, parts=P)
