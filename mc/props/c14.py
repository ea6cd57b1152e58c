"""C14: only well-formed conversion paths are accepted, by every entry point alike."""
import json
from itertools import product

from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply')
N = 11


def t(i):
    return 'T%02d' % i


def f(i):
    return 'F%02d' % i


class Chain11(Scenario):
    """A chain of eleven converters: Ci trades T(i-1), Ti and ICXT against Fi."""
    watch = ('owner', 'alice', 'bob')
    views = VIEWS
    coins = {'owner': 10 ** 9, 'alice': 100000}
    n = N
    depth = {'quick': 1, 'thorough': 2}
    replays = 2

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry() + tok('ICXT', 'ICXT', 0) + icx_deposit('owner', 'ICXT', 10 ** 8)
        ops += [tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=True)]
        for i in range(self.n + 1):
            ops += tok(t(i), 'IRC', 10 ** 9) + give(t(i), 'owner', ('alice', 10 ** 6))
        ops += give('ICXT', 'owner', ('alice', 10 ** 6))
        for i in range(1, self.n + 1):
            ops += tok(f(i), 'FT', 10 ** 6) + give(f(i), 'owner', ('alice', 10 ** 5))
            ops += converter('C%02d' % i, f(i), 'REG1', ((t(i - 1), 300000, 10 ** 6, None), (t(i), 300000, 10 ** 6, None),
                                                         ('ICXT', 400000, 10 ** 6, None)))
        return ops

    def texts(self):
        """(path text) to be tried at every entry point."""
        return ()

    def alphabet(self, M, depth):
        for text in self.texts():
            for op in entry(text, 5000):
                yield op


def entry(text, n=5000, minr=1):
    """The same path at every entry point."""
    first = text.split(',')[0].strip()
    yield q('NET', 'getExpectedReturnByPath', _path=text, _amount=n)
    yield tx('alice', 'NET', 'convert', n, _path=text, _minReturn=minr)
    yield tx('alice', 'NET', 'convertFor', n, _path=text, _minReturn=minr, _for='@bob')
    data = json.dumps({'path': text, 'minReturn': minr}).encode()
    for l in {'ICXT', t(0), LBL.get(first, t(0))}:
        yield tx('alice', l, 'transfer', _to='@NET', _value=n, _data=data)


LBL = {str(A(x)): x for x in ['ICXT'] + [t(i) for i in range(N + 1)] + [f(i) for i in range(1, N + 1)]}
GOOD = [t(0)]
for _i in range(1, N + 1):
    GOOD += [f(_i), t(_i)]
COIN = ['ICXT'] + GOOD[1:]


class Lengths(Chain11):
    """Every length from 1 to 23 elements, starting with a token or with the ICX token."""

    def texts(self):
        for base in (GOOD, COIN):
            for n in range(1, 2 * N + 2):
                yield path(*base[:n])
            # odd-length tails and paths ending in the ICX token or the flexible token
            for n in range(3, 2 * N + 2, 2):
                yield path(*(base[:n - 1] + ['ICXT']))
                yield path(*(base[:n - 1] + [base[n - 2]]))
        yield ''
        yield ','
        yield ' '

    def alphabet(self, M, depth):
        if depth:
            for n in (3, 5, 19, 21, 23):
                for op in entry(path(*GOOD[:n])):
                    yield op
                for op in entry(path(*COIN[:n])):
                    yield op
            return
        for op in Chain11.alphabet(self, M, depth):
            yield op


class Repeats(Chain11):
    """Every way one pointer of a long path can repeat another, and repeated tokens (which are allowed)."""

    def texts(self):
        for k in (2, 3, 5, 10):
            base = GOOD[:2 * k + 1]
            for i in range(k):
                for j in range(i + 1, k):
                    p = list(base)
                    p[2 * j + 1] = p[2 * i + 1]
                    yield path(*p)
        # the same with tokens that every converter of the path trades, so that nothing but the rule stands in the way
        for k in (2, 3, 4, 7, 9, 10):
            for i in range(k):
                for j in range(i + 1, k):
                    ptr = [f(x) for x in range(1, k + 1)]
                    ptr[j] = ptr[i]
                    p = ['ICXT']
                    for x in ptr:
                        p += [x, 'ICXT']
                    yield path(*p)
            # ... and back and forth over the last converter
            b = GOOD[:2 * k - 1]
            yield path(*(b + [b[-2], b[-3]]))
            # ... or straight through the flexible token of the converter
            yield path(*(b + [b[-2], b[-2]]))
        # the token may occur as a stop and again as a pointer; only pointers must be distinct
        yield path(t(1), f(1), f(1), f(2), t(2))
        yield path(t(0), f(1), f(1))
        yield path(t(0), f(1), t(0))
        yield path(t(0), f(1), t(1), f(2), t(1))
        yield path(t(0), f(1), 'ICXT', f(2), t(1), f(1), t(0))
        yield path(t(0), f(1), 'ICXT', f(2), 'ICXT', f(3), 'ICXT')
        yield path(t(0), f(1), 'ICXT', f(5), t(5), f(6), 'ICXT', f(2), t(2))
        yield path(f(1), f(1), t(1), f(2), f(2))
        yield path('ICXT', f(1), f(1), f(1), 'ICXT')
        yield path('ICXT', f(1), t(1), f(2), 'ICXT', f(3), f(3))
        yield path(*(GOOD[:5] + GOOD[3:5]))
        yield path(*(GOOD[:3] + GOOD[1:3] + GOOD[1:3]))


class Words(Chain11):
    """All words of length 1..4 and a grid of length 5 over a small vocabulary."""
    n = 2
    vocab = ('T00', 'F01', 'ICXT', 'F02', 'NOWHERE', 'alice', 'x')

    def texts(self):
        v = self.vocab
        for n in (1, 2, 3):
            for w in product(v, repeat=n):
                yield path(*w)
        for w in product(v[:4], repeat=4):
            yield path(*w)
        for w in product(('T00', 'F01', 'ICXT', 'F02', 'T01', 'x'), repeat=5):
            yield path(*w)


class Spelling(Chain11):
    """Malformed and oddly spelled elements, in every position of a good path."""
    n = 2

    def texts(self):
        a = str(A(t(0)))
        bad = ('', ' ', a[2:], a[:-1], a + '0', 'cx' + a[2:].replace('0', 'g', 1), 'hx' + a[2:], '0x' + a[2:], 'CX' + a[2:],
               'cx' + a[2:-1] + 'A', 'cx' + a[2:-1] + ' ', 'none', 'null', '\u0660' * 42, str(A('ZERO')), 'cx',
               a + ' ' + a, a + ';' + a)
        for base in ([t(0), f(1), t(1)], ['ICXT', f(1), t(1), f(2), t(2)]):
            strs = [str(A(x)) for x in base]
            for i in range(len(strs)):
                for b in bad:
                    yield ','.join(strs[:i] + [b] + strs[i + 1:])
            for sep in (', ', ' ,', ' , ', '\t,\n', ',,', ';', ' ', '.', '|'):
                yield sep.join(strs)
            yield ' ' + ','.join(strs) + '\n'
            yield ','.join(strs) + ','
            yield ',' + ','.join(strs)
            yield '[' + ','.join(strs) + ']'


class Requests(Chain11):
    """Malformed request data sent with a token transfer; a path that does not start with the token paid."""
    n = 2

    def alphabet(self, M, depth):
        ok = path(t(0), f(1), t(1))
        okc = path('ICXT', f(1), t(1))
        S = lambda **k: json.dumps(k).encode()
        datas = [None, b'', b'None', b'{}', b'[]', b'""', b'null', b'\xff\xfe', b'{"path"', b'conversionresult',
                 b'conversionResult ', b'conversionResult', b'1', b'true',
                 S(path=ok), S(minReturn=1), S(path=None, minReturn=1), S(path=1, minReturn=1), S(path=[], minReturn=1),
                 S(path=ok.split(','), minReturn=1), S(path={}, minReturn=1), S(path=ok, minReturn='1'),
                 S(path=ok, minReturn=None), S(path=ok, minReturn=1.0), S(path=ok, minReturn=[1]), S(path=ok, minReturn={}),
                 S(path=ok, minReturn=0), S(path=ok, minReturn=-1), S(path=ok, minReturn=1),
                 S(path=ok, minReturn=1, other=3), S(Path=ok, minReturn=1), S(path=ok, minreturn=1),
                 S(path=ok, minReturn=10 ** 30)]
        for x in (None, str(A('bob')), '', 'bob', str(A('bob'))[:-1], str(A('bob')).upper(), str(A('ZERO')), str(A('zero')),
                  1, [], {}, True, [str(A('bob'))], {'a': 1}, str(A('NET')), str(A('NOWHERE')), '0x' + str(A('bob'))[2:],
                  str(A('bob')) + '\n'):
            d = {'path': ok, 'minReturn': 1}
            d['for'] = x
            datas.append(json.dumps(d).encode())
        datas.append(('{"path": "%s", "path": "%s", "minReturn": 1}' % (ok, path(t(0), f(1), 'ICXT'))).encode())
        datas.append(json.dumps({'path': ok, 'minReturn': 1}, indent=2).encode())
        datas.append(json.dumps({'path': ok, 'minReturn': 1}).encode('utf-16'))
        for l in (t(0), 'ICXT', f(1), t(1)):
            for d in datas:
                if d is None:
                    yield tx('alice', l, 'transfer', _to='@NET', _value=500)
                else:
                    yield tx('alice', l, 'transfer', _to='@NET', _value=500, _data=d)
            for p in (ok, okc, path(f(1), f(1), t(1)), path(t(1), f(1), t(0)), path(t(0), f(1), t(1), f(2), t(2))):
                for v in (0, 1, 500):
                    yield tx('alice', l, 'transfer', _to='@NET', _value=v,
                             _data=json.dumps({'path': p, 'minReturn': 1}).encode())
        for p in (ok, okc, path(t(0), f(1), t(0))):
            for n in (-5, 0, 1, 10 ** 40):
                yield q('NET', 'getExpectedReturnByPath', _path=p, _amount=n)
            for m in (-1, 0, 1, 10 ** 30):
                for v in (0, 500):
                    yield tx('alice', 'NET', 'convert', v, _path=p, _minReturn=m)
            for w in ('zero', 'ZERO', 'NET', 'NOWHERE', 'bob'):
                yield tx('alice', 'NET', 'convertFor', 500, _path=p, _minReturn=1, _for='@' + w)
        # registration decides whether coins are accepted
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=False)
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@' + t(0), _register=True)


class Bytes(Chain11):
    """Every good request changed in one place: something put in, left out or replaced, at every position."""
    n = 1
    junk = (b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xef\xbb\xbf', b'\x00', b'\n', b' ', b',', b'"', b'\\', b'0', b'}')
    ends = (b'x', b'\nx', b'\n{}', b'{}', b' 1', b'//', b'#c', b'\x00', b'\r\n', b'\x1a', b';', b',', b'\n\n]', b'/**/', b'\x0b', b'\xc2\xa0', b'\xe2\x80\x8b')
    replays = 2

    def requests(self):
        p = path(t(0), f(1), t(1))
        yield ('{"path":"%s","minReturn":1}' % p).encode()

    def alphabet(self, M, depth):
        for d in self.requests():
            seen = {d}
            out = [d]
            for j in self.ends + self.junk:
                out += [d + j, j + d, d + j + d, j]
            for i in range(len(d) + 1):
                for j in self.junk:
                    out += [d[:i] + j + d[i:], d[:i] + j + d[i + 1:]]
                out.append(d[:i] + d[i + 1:])
                out.append(d[:i])
            for x in out:
                if x not in seen:
                    seen.add(x)
                    yield tx('alice', t(0), 'transfer', _to='@NET', _value=500, _data=x)
        text = path(t(0), f(1), t(1))
        coin = path('ICXT', f(1), t(1))
        for i in range(len(text) + 1):
            for j in ('x', '0', ' ', ',', '\x00', '\u0661', '\uff10', '_', '+', '-', '"', '\u200b', '\xa0'):
                for w in (text[:i] + j + text[i:], text[:i] + j + text[i + 1:]):
                    yield q('NET', 'getExpectedReturnByPath', _path=w, _amount=500)
                for w in (coin[:i] + j + coin[i:],):
                    yield tx('alice', 'NET', 'convert', 500, _path=w, _minReturn=1)
            yield q('NET', 'getExpectedReturnByPath', _path=text[:i] + text[i + 1:], _amount=500)


class Registration(Chain11):
    """Coins are accepted over exactly the tokens registered at the moment, whatever was registered before."""
    n = 2

    def alphabet(self, M, depth):
        for l in ('ICXT', t(0), f(1)):
            for on in (True, False):
                yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@' + l, _register=on)

    def probes(self, M, depth):
        for p in (('ICXT', f(1), t(1)), ('ICXT', f(1), t(1), f(2), t(2)), (t(0), f(1), 'ICXT'), (t(0), f(1), t(1)),
                  (f(1), f(1), t(1)), (t(0), f(1), f(1)), (t(1), f(1), t(0)), ('ICXT', f(1), 'ICXT')):
            for op in entry(path(*p)):
                yield op


def tasks(tier):
    P = {'quick': 4, 'thorough': 16}
    yield Lengths('lengths', parts=P)
    yield Repeats('repeats', parts=P, depth={'quick': 1, 'thorough': 1})
    yield Words('words', parts={'quick': 8, 'thorough': 32}, depth={'quick': 1, 'thorough': 1})
    yield Spelling('spelling', parts=P)
    yield Bytes('bytes', parts=P, depth={'quick': 1, 'thorough': 1})
    yield Registration('registration', depth={'quick': 3, 'thorough': 5}, parts={'quick': 2, 'thorough': 8})
    yield Requests('requests', parts=P, depth={'quick': 1, 'thorough': 2})
