"""C02: transfers move exactly the amount, notify the recipient once, or do nothing."""
from ..worlds import *

VIEWS = ('balanceOf', 'totalSupply', 'getTransferPossibility', 'getOwner')
SEE = ('TK1', 'balanceOf', ['@ACT1'], 0, False)
SEE2 = ('TK1', 'balanceOf', ['@alice'], 0, False)

# data of every kind of first byte, valid and invalid as text, and of sizes around powers of two
BINARY = tuple(bytes([c]) + tail for c in (0, 9, 10, 32, 34, 91, 127, 128, 192, 255) for tail in (b'', b'\xfe\x00\x01', b'abc ')) + \
    tuple(b'\xff' * n for n in (2, 31, 32, 33, 255, 256, 257, 5000)) + ('\u20ac'.encode(), b'None', b'null', b'0x', b'[]', b'{}')


class Xfer(Scenario):
    """One token; recipients: accounts, accepting / rejecting / mute contracts, contracts that look at the
    balances, forward, bounce back or re-enter during the notification."""
    views = VIEWS
    kind = 'IRC'
    watch = ('owner', 'alice', 'bob', 'zero', 'xACT1', 'xACT2')
    coins = {'owner': 50, 'alice': 20}
    freeze = False
    handler = ()                     # program ACT1 runs when notified
    datas = (None, b'', b'x')

    def setup(self):
        T = 'TK1'
        ops = tok(T, self.kind, 40)
        if self.kind == 'ICXT':
            ops.append(coin('owner', T, 40))
        ops += [deploy('ACT', 'ACT2', 'bob', _mode='rej'),
                deploy('ACT', 'ACT3', 'bob', _mode='ok'),
                deploy('MUTE', 'MUTE', 'bob'),
                deploy('ACT', 'ACT1', 'bob', _mode='ok', _onToken=prog(*self.handler) if self.handler else '',
                       _budget=3)]
        ops += give(T, 'owner', ('alice', 9), ('bob', 4))
        return ops

    def alphabet(self, M, depth):
        T = 'TK1'
        for who in ('owner', 'alice', 'bob') if depth else ('owner', 'alice'):
            b = bal(M, T, who)
            for to in ('alice', 'bob', 'ACT1', 'ACT3'):
                for n in sorted({0, 1, b, b + 1}):
                    yield tx(who, T, 'transfer', _to='@' + to, _value=n, _data=self.datas[n % len(self.datas)])
        yield tx('alice', T, 'transfer', _to='@xACT1', _value=2, _data=b'twin')
        yield tx('xACT1', T, 'transfer', _to='@ACT1', _value=1)
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'transfer', ['@alice', 1, b'in'], 0, False), (T, 'transfer', ['@alice', 1, b'in'], 0, False)))
        for d in (None, b'', b'\x00\xff', b'conversionResult', b'{"a": 1}', b'z' * 600) + (BINARY if depth == 0 else ()):
            yield tx('alice', T, 'transfer', _to='@ACT1', _value=2, _data=d)
            yield tx('alice', T, 'transfer', _to='@bob', _value=2, _data=d)
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'transfer', ['@ACT3', 1, b'in'], 0, False), SEE))
        yield tx('bob', 'ACT3', 'run', _prog=prog((T, 'transfer', ['@ACT1', 1], 0, True), SEE,
                                                  (T, 'transfer', ['@ACT2', 1], 0, True), SEE,
                                                  (T, 'transfer', ['@MUTE', 1], 0, True), SEE))
        if self.freeze:
            for who in ('owner', 'alice'):
                for v in (True, False):
                    yield tx(who, T, 'disableTransfer', _disable=v)
            yield tx('owner', T, 'issue', _to='@ACT1', _amount=2)
            yield tx('alice', T, 'destroy', _from='@alice', _amount=1)

    def probes(self, M, depth):
        T = 'TK1'
        for who in ('owner', 'alice', 'bob'):
            b = bal(M, T, who)
            for to in ('owner', 'alice', 'ACT2', 'MUTE', 'TK1', 'NOWHERE', 'ZERO', 'zero', 'xACT2', 'xTK1', 'calice'):
                for n in sorted({0, 1, b, b + 1, -1, -b, 2 ** 255}) if to[0] not in 'xc' else (1,):
                    yield tx(who, T, 'transfer', _to='@' + to, _value=n)
        yield tx('alice', T, 'transfer', 1, _to='@bob', _value=1)          # coins attached: refused
        yield tx('alice', T, 'transfer', _to='@bob')
        yield tx('alice', T, 'transfer', _value=1)
        yield tx('alice', T, 'transfer', _to=Raw('hx12'), _value=1)
        yield tx('alice', T, 'transfer', _to='@bob', _value=Raw('abc'))
        for w in ('owner', 'alice', 'ACT1', 'ACT2', 'MUTE', 'zero'):
            yield q(T, 'balanceOf', _owner='@' + w)

    def invariant(self, W):
        return W.conserved()

    def before_step(self, W, op):
        return None

    def step_invariant(self, W, op, before, ok, ret, events):
        """A plain transfer between accounts: exact, and only these two balances."""
        if not (ok and op[0] == 'tx' and op[3] == 'transfer' and not op[4]['_to'].is_contract):
            return None
        n, s, r = op[4]['_value'], op[1], op[4]['_to']
        exp = {}
        for k, v in before.items():
            if k[1] == 'balanceOf':
                exp[k] = v - (n if k[2] == s else 0) + (n if k[2] == r else 0)
        for k, v in exp.items():
            if k[0] == op[2] and W.obs[k] != v:
                return 'balance of %s is %s, expected %s' % (show(k[2]), W.obs[k], v)
        if n < 0 or before[(op[2], 'balanceOf', s)] < n:
            return 'transfer of %d accepted from a balance of %d' % (n, before[(op[2], 'balanceOf', s)])
        return None


class Huge(Xfer):
    """Balances and amounts around the sizes of machine words and of the largest integers."""
    handler = (SEE, SEE2)

    def setup(self):
        T = 'TK1'
        return tok(T, self.kind, 2 ** 255 - 1) + [
            deploy('ACT', 'ACT1', 'bob', _mode='ok', _onToken=prog(*self.handler), _budget=3)] \
            + give(T, 'owner', ('alice', 2 ** 128 + 2 ** 127 + 3), ('bob', 2 ** 64 + 1))

    def alphabet(self, M, depth):
        T = 'TK1'
        for who in ('owner', 'alice', 'bob'):
            b = bal(M, T, who)
            sizes = [2 ** 31, 2 ** 63, 2 ** 127, 2 ** 128, 2 ** 160, 2 ** 192, 2 ** 254]
            near = sorted({n + k for n in sizes for k in (-1, 0, 1)} | {b - 1, b}) if depth == 0 else sizes + [b]
            for to in ('bob', 'ACT1') if who != 'bob' else ('alice', 'ACT1'):
                for n in near:
                    if 0 <= n <= b:
                        yield tx(who, T, 'transfer', _to='@' + to, _value=n)

    def probes(self, M, depth):
        T = 'TK1'
        for who in ('owner', 'alice', 'bob'):
            b = bal(M, T, who)
            for n in (b + 1, b + 2 ** 64, b + 2 ** 128, 2 ** 255, 2 ** 256 - 1, 2 ** 256, -2 ** 255, -2 ** 128, -2 ** 255 + 1, -1):
                for to in ('alice', 'ACT1'):
                    yield tx(who, T, 'transfer', _to='@' + to, _value=n)
            yield q(T, 'balanceOf', _owner='@' + who)


from ..explore import show  # noqa: E402

HANDLERS = {
    'look': (SEE, SEE2),
    'bounce': (SEE, ('TK1', 'transfer', ['@alice', 1, b'back'], 0, False), SEE2),
    'forward': (('TK1', 'transfer', ['@ACT3', 1, b'fwd'], 0, True), SEE, ('TK1', 'transfer', ['@ACT2', 1], 0, True)),
    'self': (('TK1', 'transfer', ['@ACT1', 1, b'again'], 0, True), SEE),
    'overspend': (('TK1', 'transfer', ['@bob', 30, b''], 0, False),),
}


def tasks(tier):
    d = {'quick': 2, 'thorough': 3}
    P = {'quick': 2, 'thorough': 8}
    for h, pr in HANDLERS.items():
        yield Xfer('irc-' + h, handler=pr, depth=d, parts=P)
    yield Xfer('flexible-bounce', kind='FT', handler=HANDLERS['bounce'], freeze=True, depth=d, parts=P)
    yield Xfer('flexible-look', kind='FT', handler=(SEE, ('TK1', 'getTransferPossibility', [], 0, False)),
               freeze=True, depth=d, parts=P)
    yield Huge('irc-huge', depth=d, parts=P)
    yield Huge('flexible-huge', kind='FT', depth={'quick': 1, 'thorough': 2}, parts=P)
    yield Xfer('icx-forward', kind='ICXT', handler=HANDLERS['forward'], depth=d, parts=P)
    yield Xfer('icx-bounce', kind='ICXT', handler=HANDLERS['bounce'], depth=d, parts=P)
    yield Xfer('irc-large', handler=HANDLERS['bounce'], depth=d, parts=P, unit=BIG)
    yield Xfer('flexible-large', kind='FT', handler=HANDLERS['forward'], freeze=True, depth={'quick': 1, 'thorough': 3}, parts=P, unit=BIG)
    yield Xfer('icx-large', kind='ICXT', handler=HANDLERS['look'], depth={'quick': 1, 'thorough': 3}, parts=P, unit=BIG)
