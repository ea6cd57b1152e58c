"""C01: token supply always equals the sum of all balances."""
from ..worlds import *

BAL = ('balanceOf', 'totalSupply', 'getOwner', 'getNewOwner', 'getTransferPossibility')


class Conserve(Scenario):
    views = BAL

    def invariant(self, W):
        return W.conserved()


class Irc(Conserve):
    watch = ('owner', 'alice', 'bob', 'zero', 'xACT1', 'xTK1')
    kind = 'IRC'
    supply = 10
    coins = {'owner': 20, 'alice': 6}

    def setup(self):
        T = 'TK1'
        ops = tok(T, self.kind, self.supply)
        if self.kind == 'ICXT':
            ops += [coin('owner', T, 10)]
        ops += [deploy('ACT', 'ACT1', 'bob', _mode='ok',
                       _onToken=prog(('TK1', 'transfer', ['@alice', 1, b'back'], 0, False)), _onCoin='', _budget=2),
                deploy('ACT', 'ACT2', 'bob', _mode='rej'), deploy('MUTE', 'MUTE', 'bob')]
        ops += give(T, 'owner', ('alice', 3))
        return ops

    def alphabet(self, M, depth):
        T = 'TK1'
        for who in ('owner', 'alice', 'bob'):
            b = bal(M, T, who)
            for to in ('owner', 'alice', 'bob', 'zero', 'ACT1', 'TK1', 'ZERO', 'NOWHERE'):
                for n in sorted({0, 1, b - 1, b, b + 1}):
                    yield tx(who, T, 'transfer', _to='@' + to, _value=n)
            for n in (-1, -b - 1, 2 ** 256):
                yield tx(who, T, 'transfer', _to='@alice', _value=n)
            yield tx(who, T, 'transfer', _to='@ACT2', _value=1, _data=b'x')
            yield tx(who, T, 'transfer', _to='@MUTE', _value=1)
            for to in ('xACT1', 'xTK1'):
                yield tx(who, T, 'transfer', _to='@' + to, _value=1)
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'transfer', ['@ACT1', 1, b''], 0, True),
                                                  (T, 'transfer', ['@bob', 1], 0, True),
                                                  (T, 'transfer', ['@ACT2', 1], 0, True)))


class Flexible(Irc):
    kind = 'FT'

    def alphabet(self, M, depth):
        T = 'TK1'
        for op in Irc.alphabet(self, M, depth):
            if op[3] != 'transfer' or op[1] in (A('owner'), A('alice')):
                yield op
        for who in ('owner', 'alice'):
            for to in ('owner', 'alice', 'ACT1', 'TK1', 'zero', 'ZERO', 'NET' if False else 'MUTE'):
                for n in (-1, 0, 1, 5, 10 ** 30):
                    yield tx(who, T, 'issue', _to='@' + to, _amount=n)
            for frm in ('owner', 'alice', 'ACT1', 'TK1', 'zero', 'MUTE', 'bob'):
                b = bal(M, T, frm)
                for n in sorted({-1, 0, 1, b, b + 1}):
                    yield tx(who, T, 'destroy', _from='@' + frm, _amount=n)
            yield tx(who, T, 'disableTransfer', _disable=True)
            yield tx(who, T, 'withdrawTokens', _token='@TK1', _to='@bob', _amount=1)
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'destroy', ['@ACT1', 1], 0, True),
                                                  (T, 'destroy', ['@alice', 1], 0, True)))


class IcxTok(Irc):
    kind = 'ICXT'
    react = ()

    def setup(self):
        ops = Irc.setup(self)
        ops.append(deploy('ACT', 'ACT3', 'bob', _mode='ok', _onToken='', _budget=2,
                          _onCoin=prog(('TK1', 'withdraw', [1], 0, True), ('TK1', None, [], 1, True))))
        ops += give('TK1', 'owner', ('ACT3', 3))
        return ops

    def alphabet(self, M, depth):
        T = 'TK1'
        for op in Irc.alphabet(self, M, depth):
            if op[3] != 'transfer' or op[1] in (A('owner'), A('alice')):
                yield op
        for who in ('owner', 'alice'):
            for n in (0, 1, 6):
                yield coin(who, T, n)
                yield tx(who, T, 'deposit', n)
            b = bal(M, T, who)
            for n in sorted({-1, 0, 1, b, b + 1}):
                yield tx(who, T, 'withdraw', _amount=n)
                for to in ('alice', 'ACT1', 'ACT2', 'ACT3', 'TK1', 'MUTE', 'zero'):
                    yield tx(who, T, 'withdrawTo', _amount=n, _to='@' + to)
        yield tx('bob', 'ACT3', 'run', _prog=prog((T, 'withdraw', [2], 0, True), (T, 'deposit', [], 1, True),
                                                  (T, 'withdrawTo', [1, '@ACT2'], 0, True)))


class Batch(Conserve):
    """Everything several times within one transaction, by a contract that owns the token."""
    watch = ('owner', 'alice', 'bob', 'xACT1')
    kind = 'FT'
    coins = {'owner': 60, 'ACT1': 20}

    def setup(self):
        T = 'TK1'
        ops = tok(T, self.kind, 10) + ([coin('owner', T, 30)] if self.kind == 'ICXT' else [])
        ops += [deploy('ACT', 'ACT1', 'bob', _mode='ok', _onToken='', _onCoin='', _budget=2)]
        ops += give(T, 'owner', ('ACT1', 6), ('alice', 3))
        if self.kind != 'IRC':
            ops += [tx('owner', T, 'transferOwnerShip', _newOwner='@ACT1'),
                    tx('bob', 'ACT1', 'run', _prog=prog((T, 'acceptOwnerShip', [], 0, False)))]
        return ops

    def calls(self):
        T = 'TK1'
        for to in ('alice', 'xACT1', 'ACT1', 'zero'):
            yield (T, 'transfer', ['@' + to, 1, b'x'], 0, True)
        yield (T, 'transfer', ['@alice', 50], 0, True)
        if self.kind == 'FT':
            for to in ('alice', 'xACT1', 'ACT1'):
                yield (T, 'issue', ['@' + to, 5], 0, True)
                yield (T, 'destroy', ['@' + to, 1], 0, True)
            yield (T, 'destroy', ['@bob', 1], 0, True)
        if self.kind == 'ICXT':
            yield (T, 'deposit', [], 2, True)
            yield (T, None, [], 2, True)
            yield (T, 'withdraw', [2], 0, True)
            yield (T, 'withdrawTo', [2, '@alice'], 0, True)
            yield (T, 'withdrawTo', [2, '@ACT1'], 0, True)

    def alphabet(self, M, depth):
        c = list(self.calls())
        for a in c:
            for b in c:
                yield tx('bob', 'ACT1', 'run', _prog=prog(a, b))
            yield tx('bob', 'ACT1', 'run', _prog=prog(a, a, a, a, a))


class Huge(Conserve):
    """Amounts around the largest ones the platform can store (2**255 - 1 in two's complement, 2**256 - 1 in bytes)."""
    watch = ('owner', 'alice', 'bob')

    def setup(self):
        return tok('TK1', 'FT', 2 ** 254) + tok('TK2', 'IRC', 2 ** 254, decimals=1) + [deploy('ACT', 'ACT1', 'bob', _mode='ok')]

    def alphabet(self, M, depth):
        for n in (2 ** 64, 2 ** 127, 2 ** 128 - 1, 2 ** 255 - 2 ** 254 - 1, 2 ** 255 - 1, 2 ** 255, 2 ** 256 - 1, 2 ** 256):
            yield tx('owner', 'TK1', 'issue', _to='@alice', _amount=n)
            yield tx('owner', 'TK1', 'transfer', _to='@alice', _value=n)
        for who in ('owner', 'alice'):
            b = bal(M, 'TK1', who)
            for n in sorted({1, b // 2, b}):
                yield tx(who, 'TK1', 'destroy', _from='@' + who, _amount=n)
                yield tx(who, 'TK1', 'transfer', _to='@bob', _value=n)
        b = bal(M, 'TK2', 'owner')
        for to in ('owner', 'alice', 'ACT1'):
            yield tx('owner', 'TK2', 'transfer', _to='@' + to, _value=b // 2 + 1)


class Install(Conserve):
    """Deployment parameters: initial supply and decimals."""
    depth = {'quick': 1, 'thorough': 1}
    static = True
    views = BAL + ('decimals', 'name', 'symbol')

    def setup(self):
        return tok('TK2', 'IRC', 5)

    def alphabet(self, M, depth):
        for k in ('IRC', 'FT'):
            for s in (-1, 0, 1, 7, 10 ** 6, 10 ** 30):
                for d in (-1, 0, 1, 2, 18, 30):
                    yield deploy(k, 'TK1', 'alice', _name='N', _symbol='S', _initialSupply=s, _decimals=d)


class Trade(Market):
    """Conversions of all kinds in all tokens."""
    views = BAL

    def invariant(self, W):
        return W.conserved()

    def alphabet(self, M, depth):
        for p in (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('FT1', 'FT1', 'ICXT'),
                  ('ICXT', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK2'), ('ICXT', 'FT1', 'TK1')):
            for n in (1, 1000, bal(M, p[0], 'alice')):
                yield convert('alice', p, n, target='bob' if n == 1000 else None)
        yield convert_coin('alice', ('ICXT', 'FT1', 'TK1'), 500)
        yield convert_coin('alice', ('ICXT', 'FT1', 'FT1'), 500)
        yield tx('alice', 'FT1', 'destroy', _from='@alice', _amount=100)
        yield tx('owner', 'FT1', 'issue', _to='@alice', _amount=100)
        yield tx('alice', 'FT1', 'transfer', _to='@CONV1', _value=5)
        yield tx('alice', 'TK1', 'transfer', _to='@CONV1', _value=5)


def tasks(tier):
    d = {'quick': 2, 'thorough': 3}
    P = {'quick': 2, 'thorough': 8}
    yield Install('install')
    for k in ('FT', 'ICXT', 'IRC'):
        yield Batch('batch-' + k, kind=k, depth={'quick': 1, 'thorough': 3}, parts={'quick': 1, 'thorough': 8})
    yield Huge('huge', depth={'quick': 3, 'thorough': 4}, parts={'quick': 2, 'thorough': 4})
    yield Irc('irc', depth={'quick': 3, 'thorough': 4}, parts={'quick': 8, 'thorough': 16})
    yield Flexible('flexible', depth=d, parts={'quick': 4, 'thorough': 16})
    yield IcxTok('icx', depth=d, parts={'quick': 4, 'thorough': 16})
    yield Trade('trade', depth=d, parts={'quick': 2, 'thorough': 8}, fee=10000)
    yield Trade('trade-virtual', depth=d, parts={'quick': 1, 'thorough': 8},
                conns=(('TK1', 500000, 10000, 30000), ('TK2', 200000, 4000, None), ('ICXT', 300000, 6000, 9000)))
    yield Irc('irc-large', depth=d, parts=P, unit=BIG)
    yield Flexible('flexible-large', depth=d, parts={'quick': 4, 'thorough': 16}, unit=BIG)
    yield IcxTok('icx-large', depth=d, parts={'quick': 4, 'thorough': 16}, unit=BIG)
    yield Trade('trade-large', depth=d, parts={'quick': 2, 'thorough': 8}, fee=10000, unit=BIG)
