"""C13: the network passes conversions through and keeps nothing, and nothing it holds can be extracted."""
from itertools import product

from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'getIcxTokenRegistered')
DONATE = b'conversionResult'
STRAY = (('TK1', 900), ('TK2', 700), ('FT1', 500), ('ICXT', 300))


class Net(Market):
    """The network holds stray tokens and coins from the start; no conversion may ever change them."""
    watch = ('owner', 'alice', 'bob', 'zero', 'ZERO')
    views = VIEWS
    coins = {'owner': 10 ** 9, 'alice': 100000, 'bob': 5000, 'NET': 444}
    stray = STRAY
    donations = False        # hostile code may leave gifts behind; taking anything is never allowed

    def setup(self):
        ops = Market.setup(self)
        for t, n in self.stray:
            ops.append(tx('owner', t, 'transfer', _to='@NET', _value=n, _data=DONATE))
        return ops + list(self.more())

    def more(self):
        return ()

    def invariant(self, W):
        for t, n in self.stray:
            b, n = W.bal(t, 'NET'), n * self.unit
            if b != n if not self.donations else b < n:
                return 'the network held %d %s of its own and now holds %s' % (n, t, b)
        if W.chain.icx_of(A('NET')) != self.coins['NET']:
            return 'the network held %d coins and now holds %d' % (self.coins['NET'], W.chain.icx_of(A('NET')))
        return W.conserved()


class Beneficiaries(Net):
    """Every pair of tokens, every kind of beneficiary."""
    onTok = ()
    onCoin = ()
    targets = (None, 'alice', 'bob', 'ACT1', 'ACT2', 'MUTE', 'NET', 'CONV1', 'FT1', 'TK2', 'ICXT', 'ZERO', 'zero',
               'NOWHERE', 'xNET', 'xACT1', 'xICXT')

    def more(self):
        return [deploy('ACT', 'ACT1', 'bob', _mode='ok', _onToken=prog(*self.onTok) if self.onTok else '',
                       _onCoin=prog(*self.onCoin) if self.onCoin else '', _budget=3),
                deploy('ACT', 'ACT2', 'bob', _mode='rej'), deploy('MUTE', 'MUTE', 'bob'),
                tx('owner', 'TK1', 'transfer', _to='@ACT1', _value=400)]

    def alphabet(self, M, depth):
        toks = ('TK1', 'TK2', 'ICXT', 'FT1')
        for a, b in product(toks, toks):
            for t in self.targets if not depth else (None, 'bob', 'ACT1', 'NET'):
                for n in ((300,) if depth or (t and t[0] == 'x') else (1, 300)):
                    yield convert('alice', (a, 'FT1', b), n, target=t)
                    if a == 'ICXT':
                        yield convert_coin('alice', (a, 'FT1', b), n, target=t)
            yield convert('alice', (a, 'FT1', b), 0)
            yield convert('alice', (a, 'FT1', b), bal(M, a, 'alice'), target='bob')
            yield tx('bob', 'ACT1', 'run', _prog=prog(
                (a, 'transfer', ['@NET', 200, convdata([a, 'FT1', b], 1)], 0, True)))
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=False)
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@TK1', _register=True)
        # everything a request may say about the beneficiary
        if not depth:
            p = path('TK1', 'FT1', 'TK2')
            for f in ('""', '0', 'false', 'true', '[]', '{}', 'null', '"null"', '"bob"', '" "', '" %s"' % A('bob'), '"%s "' % A('bob'),
                      '["%s"]' % A('bob'), '"%s"' % str(A('bob')).upper(), '"%s"' % str(A('bob'))[:-1], '"%s"' % A('bob')):
                yield tx('alice', 'TK1', 'transfer', _to='@NET', _value=300,
                         _data=('{"path": "%s", "minReturn": 1, "for": %s}' % (p, f)).encode())
            yield tx('alice', 'TK1', 'transfer', _to='@NET', _value=300,
                     _data=('{"path": "%s", "minReturn": 1, "For": "%s", "to": "%s"}' % (p, A('bob'), A('bob'))).encode())
            yield tx('alice', 'TK1', 'transfer', _to='@NET', _value=300,
                     _data=('{"for": "%s", "path": "%s", "minReturn": 1, "for": "%s"}' % (A('eve'), p, A('bob'))).encode())
        # callbacks pretended by accounts and contracts that are not tokens
        for who in ('alice', 'owner'):
            for data in (DONATE, b'', convdata(['TK1', 'FT1', 'FT1'], 1)):
                yield tx(who, 'NET', 'tokenFallback', _from='@alice', _value=50, _data=data)


class Dust(Net):
    """A few units of everything held by the network, next to conversions of all sizes."""
    stray = (('TK1', 1), ('TK2', 3), ('FT1', 2), ('ICXT', 1))
    hold = 30000

    def alphabet(self, M, depth):
        toks = ('TK1', 'TK2', 'ICXT', 'FT1')
        for a, b in product(toks, toks):
            for n in (7, 2999, bal(M, a, 'alice') // self.unit):
                yield convert('alice', (a, 'FT1', b), n, target='bob' if n == 7 else None)
            if a == 'ICXT':
                yield convert_coin('alice', (a, 'FT1', b), 2999)


class Registration(Net):
    """Conversions between registrations and unregistrations of ICX tokens."""
    def alphabet(self, M, depth):
        for t in ('ICXT', 'TK1'):
            for r in (True, False):
                yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@' + t, _register=r)
        for p in (('TK1', 'FT1', 'ICXT'), ('TK2', 'FT1', 'ICXT'), ('ICXT', 'FT1', 'TK2'), ('TK2', 'FT1', 'TK1'), ('ICXT', 'FT1', 'ICXT')):
            yield convert('alice', p, 100)
            if p[0] == 'ICXT':
                yield convert_coin('alice', p, 100)


class Rounds(Net):
    """Round trips over two converters: the path ends with the token it began with, or passes through it."""
    conns = (('TK1', 300000, 10000, None), ('TK2', 200000, 4000, None), ('ICXT', 300000, 6000, None))
    conns2 = (('FT1', 200000, 900, None), ('TK1', 300000, 20000, None), ('TK2', 200000, 5000, None), ('ICXT', 300000, 4000, None))
    stray = STRAY + (('FT2', 60),)
    max_connectors = 4

    def alphabet(self, M, depth):
        for a, b in product(('TK1', 'TK2', 'ICXT'), ('TK1', 'TK2', 'ICXT', 'FT1', 'FT2')):
            for p, r in (('FT1', 'FT2'), ('FT2', 'FT1')):
                for x in ((a, p, b, r, a), (b, p, a, r, b), (a, p, b, r, 'FT1'), (a, p, a, r, b)) if not depth else ((a, p, b, r, a),):
                    for t in (None, 'bob') if not depth else (None,):
                        yield convert('alice', x, 300, target=t)
                        if x[0] == 'ICXT':
                            yield convert_coin('alice', x, 300, target=t)


PTR = ('FT1', 'EVIL1', 'EVIL2', 'FAKE1', 'FAKE2', 'FAKE3')


class Hostile(Net):
    """Fake tokens and fake pointers, in every position of paths of one and two hops."""
    onTransfer = ()
    onOwner = ()
    actTok = ()
    ptr = 'ACT1'
    fake = ('bob', 'ACT1', 'NET')
    twohop = True
    donations = True
    watch = ('alice', 'bob', 'owner', 'zero', 'ZERO')

    def more(self):
        p = lambda x: prog(*x) if x else ''
        ops = [deploy('ACT', 'ACT1', 'bob', _mode='ok'),
               deploy('EVIL', 'EVIL1', 'bob', _ptr='@' + self.ptr, _onTransfer=p(self.onTransfer), _onOwner=p(self.onOwner),
                      _balance=0, _budget=3),
               deploy('EVIL', 'EVIL2', 'bob', _ptr='@CONV1', _onTransfer=p(self.onTransfer), _onOwner='',
                      _balance=10, _budget=3)]
        for i, f in enumerate(self.fake):
            ops.append(deploy('FAKE', 'FAKE%d' % (i + 1), 'bob', _o='@' + f))
        for t in ('TK1', 'TK2', 'ICXT', 'FT1'):
            for w in ('ACT1', 'EVIL1', 'EVIL2'):
                ops.append(tx('owner', t, 'transfer', _to='@' + w, _value=1000))
        ops += [coin('bob', 'EVIL1', 100), coin('bob', 'ACT1', 100)]
        ops.append(tx('bob', 'ACT1', 'setup', _mode='ok', _onToken=p(self.actTok), _onCoin='', _budget=3))
        return ops

    def alphabet(self, M, depth):
        ends = ('TK1', 'ICXT', 'FT1', 'EVIL1')
        paths = [(a, p, b) for a in ends for p in PTR for b in ends]
        if self.twohop and depth == 0:
            paths += [(a, p, b, r, c) for a in ('TK1', 'EVIL1') for p in PTR for b in ends for r in PTR if p != r
                      for c in ('TK1', 'ICXT', 'EVIL1')]
        for x in paths:
            if x[0] == 'EVIL1':
                yield tx('bob', 'EVIL1', 'run', _prog=prog(
                    ('NET', 'tokenFallback', ['@bob', 100, convdata(x, 1)], 0, False)))
            else:
                yield convert('alice', x, 100, target='bob')
                if x[0] == 'ICXT':
                    yield convert_coin('alice', x, 100, target='bob')


CR = DONATE
DELIVER = {
    # what the hostile code does when the network calls it: (on transfer, on getOwner, on receipt at the pointer)
    'deliver': (((('TK1', 'transfer', ['@NET', 7, CR], 0, True)), ('ICXT', 'transfer', ['@NET', 9, CR], 0, True)), (),
                ()),
    'own-convert': (((('TK1', 'transfer', ['@NET', 100, convdata(['TK1', 'FT1', 'ICXT'], 1, 'bob')], 0, True)),),
                    ((('TK1', 'transfer', ['@NET', 100, convdata(['TK1', 'FT1', 'FT1'], 1, 'bob')], 0, True)),), ()),
    'reenter-pointer': ((), (('NET', 'tokenFallback', ['@bob', 300, convdata(['EVIL1', 'FAKE1', 'TK1'], 1, 'bob')], 0,
                              True),
                             ('NET', 'tokenFallback', ['@bob', 300, convdata(['EVIL1', 'FAKE1', 'ICXT'], 1, 'bob')],
                              0, True)),
                        (('TK1', 'transfer', ['@NET', 20, CR], 0, True),)),
    'reenter-coins': ((('NET', 'convert', [path('ICXT', 'FT1', 'TK1'), 1], 50, True),),
                      (('NET', 'convertFor', [path('ICXT', 'FT1', 'FT1'), 1, '@bob'], 50, True),),
                      (('NET', 'convert', [path('ICXT', 'FT1', 'ICXT'), 1], 10, True),
                       ('ICXT', 'transfer', ['@NET', 20, CR], 0, True))),
    'reenter-network': ((('NET', 'tokenFallback', ['@NET', 900, CR], 0, True),
                         ('NET', 'tokenFallback', ['@bob', 900, convdata(['EVIL1', 'EVIL1', 'TK1'], 1, 'bob')], 0,
                          True), ('TK1', 'transfer', ['@NET', 3, CR], 0, True)),
                        (('NET', 'convert', [path('TK1', 'FAKE1', 'ICXT'), 1], 1, True),),
                        (('TK1', 'transfer', ['@NET', 60, convdata(['TK1', 'FAKE1', 'TK1'], 1, 'bob')], 0, True),
                         ('FT1', 'transfer', ['@NET', 3, CR], 0, True))),
}


def tasks(tier):
    d1 = {'quick': 1, 'thorough': 2}
    d2 = {'quick': 2, 'thorough': 3}
    P2 = {'quick': 8, 'thorough': 64}
    yield Beneficiaries('beneficiaries', depth=d2, parts=P2)
    yield Beneficiaries('beneficiaries-reentrant', depth=d2, parts=P2,
                        onTok=(('TK1', 'transfer', ['@NET', 10, convdata(['TK1', 'FT1', 'ICXT'], 1)], 0, True),
                               ('FT1', 'transfer', ['@NET', 10, convdata(['FT1', 'FT1', 'TK1'], 1, 'bob')], 0, True)),
                        onCoin=(('NET', 'convert', [path('ICXT', 'FT1', 'FT1'), 1], 20, True),
                                ('ICXT', None, [], 5, True)))
    yield Beneficiaries('beneficiaries-large', depth=d2, parts=P2, unit=BIG)
    yield Dust('dust', depth=d2, parts=P2)
    yield Dust('dust-large', depth={'quick': 1, 'thorough': 3}, parts=P2, unit=BIG)
    yield Rounds('rounds', depth={'quick': 1, 'thorough': 2}, parts={'quick': 2, 'thorough': 16})
    yield Registration('registration', depth={'quick': 4, 'thorough': 6}, parts={'quick': 4, 'thorough': 11})
    for n, (t, o, r) in DELIVER.items():
        yield Hostile('hostile-' + n, onTransfer=t, onOwner=o, actTok=r, depth=d1, parts={'quick': 2, 'thorough': 24})
    t, o, r = DELIVER['deliver']
    yield Hostile('hostile-self', onTransfer=t, onOwner=o, ptr='EVIL1', fake=('NET', 'ICXT', 'CONV1'), depth=d1,
                  parts={'quick': 2, 'thorough': 24})
    yield Hostile('hostile-account', onTransfer=t, onOwner=o, actTok=(), ptr='alice', fake=('alice', 'zero', 'ZERO'),
                  depth=d1, parts={'quick': 2, 'thorough': 24})
