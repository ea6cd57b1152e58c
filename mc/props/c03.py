"""C03: the ICX token is backed 1:1 by coins and always redeemable; no other DEX contract retains coins."""
from ..worlds import *
from ..explore import show

DEX = ('TK1', 'TK2', 'FT1', 'FT2', 'ICXT2', 'CONV1', 'CONV2', 'NET', 'REG1')
VIEWS = ('balanceOf', 'totalSupply', 'getIcxTokenRegistered', 'getConnectorBalance')
T = 'ICXT'


class Backed(Scenario):
    views = VIEWS

    def invariant(self, W):
        sup = W.chain.query(A(T), 'totalSupply')
        if not sup[0] or sup[1] != W.chain.icx_of(A(T)):
            return 'total supply %s but the contract holds %d coins' % (show(sup[1]), W.chain.icx_of(A(T)))
        for x in DEX:
            if A(x) in W.kinds and W.kinds[A(x)] != 'ICXT' and W.chain.icx_of(A(x)):
                return '%s holds %d coins' % (x, W.chain.icx_of(A(x)))
        if W.chain.total_icx() != W.total_coins:
            return 'coins created or destroyed: %d instead of %d' % (W.chain.total_icx(), W.total_coins)
        return W.conserved()


REACT = {
    'plain': (),
    'rewithdraw': ((T, 'withdraw', [1], 0, True), (T, 'balanceOf', ['@ACT1'], 0, False),
                   (T, 'totalSupply', [], 0, False)),
    'redeposit': ((T, 'deposit', [], 1, True), (T, 'withdrawTo', [2, '@bob'], 0, True)),
    'resend': ((T, 'transfer', ['@alice', 1, b''], 0, True), (T, None, [], 2, True)),
    'drain': ((T, 'withdraw', [6], 0, True), (T, 'withdraw', [3], 0, True), (T, 'totalSupply', [], 0, False)),
}


class Redeem(Backed):
    """Deposits, transfers and withdrawals with recipients that call back."""
    watch = ('owner', 'alice', 'bob', 'zero', 'xACT1', 'xICXT')
    coins = {'owner': 9, 'alice': 12, 'xACT1': 3, 'xICXT': 3}
    react = ()
    tokreact = ()

    def setup(self):
        return [deploy('ICXT', T, 'owner'),
                deploy('ACT', 'ACT1', 'bob', _mode='ok', _onToken=prog(*self.tokreact) if self.tokreact else '',
                       _onCoin=prog(*self.react) if self.react else '', _budget=2),
                deploy('ACT', 'ACT2', 'bob', _mode='rejcoin'), deploy('MUTE', 'MUTE', 'bob'),
                coin('alice', T, 8), tx('alice', T, 'transfer', _to='@ACT1', _value=5)
                if not self.tokreact else coin('owner', T, 1)]

    def alphabet(self, M, depth):
        for who in ('owner', 'alice'):
            for n in (1, 4):
                yield coin(who, T, n)
                yield tx(who, T, 'deposit', n)
            b = bal(M, T, who)
            for n in sorted({1, b}):
                yield tx(who, T, 'withdraw', _amount=n)
                for to in ('bob', 'ACT1', 'owner'):
                    yield tx(who, T, 'withdrawTo', _amount=n, _to='@' + to)
            yield tx(who, T, 'transfer', _to='@ACT1', _value=1)
            yield tx(who, T, 'transfer', _to='@bob', _value=b)
        b = bal(M, T, 'ACT1')
        for n in sorted({1, b}):
            yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'withdraw', [n], 0, False)))
            yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'withdrawTo', [n, '@alice'], 0, True),
                                                      (T, 'withdrawTo', [1, '@ACT2'], 0, True)))
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'deposit', [], 1, True), (T, None, [], 1, True)))

    def probes(self, M, depth):
        for who in ('xACT1', 'xICXT'):
            yield coin(who, T, 2)
            yield tx(who, T, 'withdraw', _amount=1)
            yield tx('alice', T, 'withdrawTo', _amount=1, _to='@' + who)
            yield tx('alice', T, 'transfer', _to='@' + who, _value=1)
        for who in ('owner', 'alice', 'bob'):
            b = bal(M, T, who)
            for n in sorted({-1, 0, b + 1, b}):
                yield tx(who, T, 'withdraw', _amount=n)
                for to in ('ACT2', 'MUTE', T, 'zero', 'ZERO', 'NOWHERE', 'alice'):
                    yield tx(who, T, 'withdrawTo', _amount=n, _to='@' + to)
            yield tx(who, T, 'withdraw', 1, _amount=1)
            yield tx(who, T, 'transfer', 1, _to='@bob', _value=0)
            yield tx(who, T, 'transfer', _to='@' + T, _value=1)
            yield tx(who, T, 'withdrawTokens', _token='@' + T, _to='@alice', _amount=1)
            yield coin(who, T, 0)
            yield tx(who, T, 'deposit')
            yield tx(who, T, 'balanceOf', 1, _owner='@' + who)


class Payout(Market, Backed):
    """Conversions into and out of the ICX token; coins sent at every contract and method."""
    views = VIEWS
    invariant = Backed.invariant
    trader = 'alice'
    react = ()

    def setup(self):
        return Market.setup(self) + [
            deploy('ACT', 'ACT1', 'bob', _mode='ok', _onCoin=prog(*self.react) if self.react else '', _budget=2),
            deploy('ACT', 'ACT2', 'bob', _mode='rejcoin'), deploy('MUTE', 'MUTE', 'bob')]

    def alphabet(self, M, depth):
        for p in (('TK1', 'FT1', 'ICXT'), ('FT1', 'FT1', 'ICXT')):
            for to in ('alice', 'bob', 'ACT1', 'ACT2', 'MUTE', 'ICXT', 'NET', 'CONV1'):
                yield convert('alice', p, 100, target=to)
        for p in (('ICXT', 'FT1', 'FT1'), ('ICXT', 'FT1', 'TK1')):
            for n in (1, 100, 100000):
                yield convert_coin('alice', p, n, target='bob')
                yield convert_coin('alice', p, n)
            yield convert_coin('alice', p, 0)
            yield convert_coin('alice', p, 100, minr=10 ** 9)
            yield convert_coin('alice', p, 100, target='ACT1')
        yield convert_coin('alice', ('TK1', 'FT1', 'FT1'), 100)
        yield convert_coin('alice', ('ICXT', 'FT1', 'ICXT'), 100)
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=False)
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=True)
        yield tx('owner', 'NET', 'registerIcxToken', _icxToken='@TK1', _register=True)
        yield convert_coin('alice', ('TK1', 'FT1', 'ICXT'), 10)
        yield tx('alice', 'ICXT', 'withdraw', _amount=5000)
        yield coin('alice', 'ICXT', 77)

    def probes(self, M, depth):
        for to in ('NET', 'CONV1', 'FT1', 'TK1', 'REG1', 'MUTE'):
            yield coin('alice', to, 5)
            yield coin('alice', to, 0)
        v = 5
        yield tx('owner', 'NET', 'registerIcxToken', v, _icxToken='@ICXT', _register=True)
        yield tx('owner', 'NET', 'transferOwnerShip', v, _newOwner='@bob')
        yield tx('owner', 'CONV1', 'setConversionFee', v, _conversionFee=0)
        yield tx('owner', 'CONV1', 'disableConversions', v, _disable=False)
        yield tx('owner', 'REG1', 'registerAddress', v, _scoreName='Network', _scoreAddress='@NET')
        yield tx('owner', 'FT1', 'transfer', v, _to='@bob', _value=1)
        yield tx('owner', 'FT1', 'destroy', v, _from='@owner', _amount=1)
        yield tx('owner', 'TK1', 'transfer', v, _to='@bob', _value=1)
        yield tx('owner', 'TK1', 'transfer', v, _to='@NET', _value=1, _data=convdata(['TK1', 'FT1', 'FT1'], 1))
        yield tx('owner', 'NET', 'tokenFallback', v, _from='@alice', _value=1, _data=b'conversionResult')
        yield tx('owner', 'CONV1', 'tokenFallback', v, _from='@alice', _value=1, _data=b'x')
        # everybody who holds ICX tokens can redeem them right now
        for who in ('owner', 'alice'):
            b = bal(M, T, who)
            if b:
                yield tx(who, T, 'withdraw', _amount=b)
                yield tx(who, T, 'withdrawTo', _amount=b, _to='@bob')


class Attached(Market, Backed):
    """Coins attached to a call of every method of every contract, each of which succeeds without them."""
    views = VIEWS
    invariant = Backed.invariant
    depth = {'quick': 1, 'thorough': 2}
    compare_coins = True
    conns2 = (('FT1', 400000, 4000, None),)

    def setup(self):
        o = 'owner'
        ops = Market.setup(self) + tok('TK3', 'QUIET', 500)
        ops += [tx(o, 'TK3', 'transfer', _to='@' + c, _value=20) for c in ('NET', 'CONV1', 'FT1', 'ICXT')]
        return ops + [tx(o, 'CONV1', 'transferManagement', _newManager='@alice'), deploy('REG', 'REG2', o),
                      tx(o, 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG2'),
                      tx(o, 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='@REG1')] + [
                          tx(o, c, 'transferOwnerShip', _newOwner='@bob') for c in ('NET', 'REG1', 'CONV1', 'ICXT')]

    def calls(self):
        """(sender, contract, method, arguments): all of them succeed in the initial state."""
        o, c = 'owner', 'CONV1'
        for h in ('NET', c, 'ICXT'):
            yield o, h, 'withdrawTokens', dict(_token='@TK3', _to='@alice', _amount=5)
        yield o, c, 'withdrawFromToken', dict(_token='@TK3', _to='@alice', _amount=5)
        for h in ('NET', 'REG1', c, 'ICXT'):
            yield 'bob', h, 'acceptOwnerShip', {}
            yield o, h, 'transferOwnerShip', dict(_newOwner='@alice')
        yield 'alice', c, 'acceptManagement', {}
        yield o, c, 'transferTokenOwnership', dict(_newOwner='@bob')
        yield o, c, 'disableTokenTransfers', dict(_disable=True)
        yield o, c, 'disableConversions', dict(_disable=True)
        yield o, c, 'disableConnectorPurchases', dict(_connectorToken='@TK1', _disable=True)
        yield o, c, 'setConversionFee', dict(_conversionFee=7)
        yield o, c, 'updateConnector', dict(_connectorToken='@TK1', _weight=400000, _enableVirtualBalance=True, _virtualBalance=5)
        yield o, c, 'updateRegistry', {}
        yield o, c, 'restoreRegistry', {}
        yield o, c, 'disableRegistryUpdate', dict(_disable=True)
        yield o, 'REG1', 'registerAddress', dict(_scoreName='Network', _scoreAddress='@REG2')
        yield o, 'REG1', 'unregisterAddress', dict(_scoreName='Network')
        yield o, 'NET', 'registerIcxToken', dict(_icxToken='@ICXT', _register=False)
        yield 'alice', 'FT1', 'destroy', dict(_from='@alice', _amount=3)
        for t in ('FT1', 'TK1', 'ICXT'):
            yield 'alice', t, 'transfer', dict(_to='@bob', _value=3)
            yield 'alice', t, 'transfer', dict(_to='@NET', _value=50, _data=convdata([t, 'FT1', 'TK2'], 1))
        yield 'alice', 'ICXT', 'withdraw', dict(_amount=3)
        yield 'alice', 'ICXT', 'withdrawTo', dict(_amount=3, _to='@bob')
        for h in ('NET', 'REG1', c, 'FT1', 'TK1', 'ICXT'):
            yield o, h, 'getOwner', {}
            yield o, h, 'on_install', {}
            yield o, h, 'on_update', {}
            yield o, h, 'fallback', {}

    def alphabet(self, M, depth):
        for who, h, m, p in self.calls():
            for v in (1, 30):
                yield tx(who, h, m, v, **p)
                if who == 'alice':
                    yield tx('owner', h, m, v, **p)

    def probes(self, M, depth):
        for who, h, m, p in self.calls():
            yield tx(who, h, m, **p)


def tasks(tier):
    d = {'quick': 2, 'thorough': 3}
    P = {'quick': 1, 'thorough': 8}
    for n, r in REACT.items():
        yield Redeem('redeem-' + n, react=r, depth={'quick': 2, 'thorough': 3}, parts={'quick': 2, 'thorough': 16})
    yield Redeem('redeem-ontoken', tokreact=((T, 'withdraw', [1], 0, True), (T, 'withdrawTo', [1, '@bob'], 0, True)),
                 react=REACT['redeposit'], depth=d, parts=P)
    yield Payout('payout', depth=d, parts=P)
    yield Payout('payout-reenter', react=((T, None, [], 10, True), ('NET', 'convert', [path('ICXT', 'FT1', 'TK1'), 1],
                                                                    20, True)), depth=d, parts=P)
    yield Attached('attached')
    yield Redeem('redeem-large', react=REACT['redeposit'], depth=d, parts=P, unit=BIG)
    yield Payout('payout-large', depth=d, parts=P, unit=BIG)
