"""C10: a conversion pays exactly what was quoted."""
import json

from ..chain import Address
from ..worlds import *

ASSUMPTIONS = ['conversion prices come from the public formula of the code under test, judged separately (C16)']


TOK = [A(x) for x in ('TK1', 'TK2', 'ICXT', 'FT1', 'FT2')]


class Quote(Market):
    """In every state: query, then execute; the executed amount must equal the quote (and the model's)."""
    views = ('balanceOf', 'totalSupply', 'getConnector', 'getConnectorBalance', 'isActive', 'getConversionFee',
             'getIcxTokenRegistered')
    paths = ()
    amounts = (1, 7, 1000, 5000)
    moves = ()
    stray = ()               # tokens sent to the converters and the network before activation

    def setup(self):
        ops = Market.setup(self)
        i = next(i for i, op in enumerate(ops) if op[0] == 'tx' and op[3] == 'transferOwnerShip'
                 and op[4]['_newOwner'] == A('CONV1'))
        return ops[:i] + [tx('owner', t, 'issue', _to='@' + c, _amount=n) for t, c, n in self.stray] + ops[i:]

    def alphabet(self, M, depth):
        for op in self.moves:
            yield op
        for p in self.paths:
            for n in self.amounts:
                if p[0] == 'ICXT' and n % 2:
                    yield convert_coin(self.trader, p, n)
                else:
                    yield convert(self.trader, p, n, target='bob' if n == 7 else None)

    def before_step(self, W, op):
        """What the real network quotes for the conversion about to be executed."""
        if op[0] != 'tx':
            return None
        if op[3] == 'transfer' and op[2] in TOK:
            d = json.loads(op[4]['_data'])
            text, n = d['path'], op[4]['_value']
        elif op[3] == 'convert':
            text, n = op[4]['_path'], op[5]
        else:
            return None
        return W.chain.query(A('NET'), 'getExpectedReturnByPath', {'_path': text, '_amount': n}), text, op, n

    def step_invariant(self, W, op, before, ok, ret, events):
        if W.ctx is None or not ok:
            return None
        (qok, quote), text, _, n = W.ctx
        if not qok:
            return 'executed a conversion for which the quote fails'
        who = A(self.trader)
        if op[3] == 'transfer' and 'for' in json.loads(op[4]['_data']):
            who = A('bob')
        first, last = (Address.from_string(x) for x in (text.split(',')[0], text.split(',')[-1]))
        key = (who, 'icx') if last == A('ICXT') else (last, 'balanceOf', who)
        got = W.obs[key] - before[key]
        if who == A(self.trader) and first == last:
            got += n
        if got != quote:
            return 'quoted %d but delivered %d' % (quote, got)
        return None

    def probes(self, M, depth):
        for p in self.paths:
            for n in self.amounts + (0, -1, 10 ** 6):
                yield q('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=n)
        for c, toks in (('CONV1', ('FT1', 'TK1', 'TK2', 'ICXT')), ('CONV2', ('FT2', 'FT1', 'TK1'))):
            if A(c) not in M.c:
                continue
            for a in toks:
                for b in toks:
                    for n in (1, 1000):
                        yield q(c, 'getReturn', _fromToken='@' + a, _toToken='@' + b, _amount=n)


ONE = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('TK2', 'FT1', 'ICXT'),
       ('ICXT', 'FT1', 'FT1'), ('FT1', 'FT1', 'ICXT'))
TWO = (('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), ('FT2', 'FT2', 'FT1', 'FT1', 'ICXT'), ('ICXT', 'FT1', 'TK1', 'FT2', 'FT2'),
       ('FT1', 'FT2', 'TK1'), ('TK2', 'FT1', 'TK1', 'FT2', 'FT1'))

LONG = (('TK1', 'FT1', 'FT1', 'FT2', 'FT2', 'FT3', 'FT3'), ('FT3', 'FT3', 'FT1', 'FT2', 'TK1', 'FT1', 'ICXT'),
        ('ICXT', 'FT1', 'FT1', 'FT3', 'FT3', 'FT3', 'FT2', 'FT2', 'TK1'), ('FT1', 'FT3', 'FT2', 'FT2', 'TK1', 'FT1', 'FT1'))

# paths through the token they start from (or end with), at prices that make or lose a fortune on the way
AGAIN = (('TK1', 'FT1', 'FT1', 'FT2', 'TK1', 'FT3', 'FT3'), ('TK1', 'FT1', 'FT1', 'FT2', 'TK1', 'FT3', 'TK1'),
         ('FT1', 'FT1', 'TK1', 'FT3', 'FT1', 'FT2', 'FT2'), ('FT1', 'FT2', 'TK1', 'FT1', 'FT1', 'FT3', 'TK1'),
         ('TK1', 'FT3', 'FT1', 'FT1', 'TK1', 'FT2', 'FT2', 'FT4', 'FT4')[:7], ('TK1', 'FT1', 'TK1', 'FT3', 'FT1'),
         ('TK1', 'FT2', 'FT1', 'FT1', 'TK1'), ('ICXT', 'FT1', 'TK1', 'FT3', 'FT1', 'FT2', 'TK1'))


def tasks(tier):
    virt = (('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, 2000))
    mixed = (('TK1', 100000, 10000, None), ('TK2', 800000, 4000, 12000), ('ICXT', 50000, 6000, None))
    d = {'quick': 2, 'thorough': 3}
    P = {'quick': 2, 'thorough': 16}
    yield Quote('real', paths=ONE, depth=d, parts=P)
    yield Quote('real-fee', paths=ONE, fee=25000, depth=d, parts=P)
    yield Quote('virtual', paths=ONE, conns=virt, depth=d, parts=P)
    yield Quote('mixed-fee', paths=ONE, conns=mixed, fee=3000, depth=d, parts=P)
    c2 = (('FT1', 400000, 4000, None), ('TK1', 600000, 8000, 3000))
    yield Quote('two-hops', paths=TWO, conns2=c2, fee=10000, depth=d, parts=P)
    yield Quote('two-hops-virtual', paths=TWO, conns=virt, conns2=c2, depth=d, parts=P)
    yield Quote('large', paths=ONE + TWO, amounts=(5, 1000), conns=virt, conns2=c2, fee=3000, depth={'quick': 1, 'thorough': 3}, parts=P, unit=BIG)
    yield Quote('large-real', paths=ONE, amounts=(5, 1000), depth=d, parts=P, unit=BIG)
    full = (('TK1', 1000000, 10000, None),)
    yield Quote('full-weight', paths=(('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1')), conns=full, fee=1, depth=d, parts=1)
    # flexible tokens lying around in the converters and in the network
    yield Quote('stray', paths=ONE[:3], fee=3000, depth=d, parts=P,
                stray=(('FT1', 'CONV1', 700), ('FT1', 'NET', 300), ('FT1', 'TK1', 50)))
    for name, k in (('again', 1), ('again-loss', 0)):
        dear = (('FT1', 300000, (5000, 900)[k], None), ('TK1', 300000, (90, 90000)[k], None))
        yield Quote(name, paths=AGAIN, amounts=(40, 900), depth={'quick': 1, 'thorough': 3}, parts=P, conns2=dear, supply2=6000,
                    conns3=(('FT2', 300000, 100, None), ('FT1', 300000, 9000, None), ('TK1', 300000, (90000, 90)[k], None)))
    # three and four hops
    c3 = (('FT2', 500000, 5000, None), ('FT1', 300000, 1500, 2500))
    yield Quote('long', paths=LONG, conns2=c2, conns3=c3, fee=1000, depth={'quick': 1, 'thorough': 3},
                parts={'quick': 2, 'thorough': 16})
