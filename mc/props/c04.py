"""C04: only the owner mints or freezes; only owner or holder burns."""
from ..worlds import *

T = 'FT1'
VIEWS = ('balanceOf', 'totalSupply', 'getTransferPossibility', 'getOwner', 'getNewOwner')
CALLERS = ('owner', 'alice', 'bob', 'eve')


class Mint(Scenario):
    """All callers x all amounts in every ownership and freeze state; the owner may be a contract."""
    views = VIEWS
    watch = ('owner', 'alice', 'bob', 'eve', 'zero', 'NOWHERE', 'xACT1', 'xFT1')
    coins = {'owner': 5, 'alice': 5}

    def setup(self):
        return tok(T, 'FT', 30) + give(T, 'owner', ('alice', 6), ('eve', 3)) + [
            deploy('ACT', 'ACT1', 'bob', _mode='ok'), deploy('ACT', 'ACT2', 'bob', _mode='rej'),
            deploy('MUTE', 'MUTE', 'bob')] + give(T, 'owner', ('ACT1', 4)) + tok('TK1', 'IRC', 10)

    def alphabet(self, M, depth):
        for who in CALLERS[:3]:
            for new in ('owner', 'alice', 'ACT1', 'bob'):
                yield tx(who, T, 'transferOwnerShip', _newOwner='@' + new)
            yield tx(who, T, 'acceptOwnerShip')
            for v in (True, False):
                yield tx(who, T, 'disableTransfer', _disable=v)
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'acceptOwnerShip', [], 0, False)))
        yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'issue', ['@eve', 3], 0, False),
                                                  (T, 'destroy', ['@alice', 2], 0, False)))
        yield tx('owner', T, 'issue', _to='@bob', _amount=2)
        yield tx('alice', T, 'destroy', _from='@alice', _amount=2)
        yield tx('alice', T, 'transfer', _to='@bob', _value=1)

    def probes(self, M, depth):
        for who in CALLERS:
            for to in ('owner', 'alice', 'eve', 'zero', 'ZERO', T, 'ACT1', 'ACT2', 'MUTE', 'NOWHERE'):
                for n in (-1, 0, 1, 10 ** 24):
                    yield tx(who, T, 'issue', _to='@' + to, _amount=n)
            for frm in ('owner', 'alice', 'eve', 'ACT1', 'zero', T):
                b = bal(M, T, frm)
                for n in sorted({-1, 0, 1, b, b + 1}):
                    yield tx(who, T, 'destroy', _from='@' + frm, _amount=n)
            for v in (True, False):
                yield tx(who, T, 'disableTransfer', _disable=v)
            yield tx(who, T, 'transfer', _to='@alice', _value=1)
            yield tx(who, T, 'issue', 1, _to='@alice', _amount=1)
        for who in ('xACT1', 'cowner', 'calice', 'cbob', 'xFT1'):
            for frm in ('ACT1', 'owner', 'alice', 'bob', T):
                yield tx(who, T, 'destroy', _from='@' + frm, _amount=1)
            for to in ('xACT1', 'xFT1', 'bob'):
                yield tx(who, T, 'issue', _to='@' + to, _amount=1)
            yield tx(who, T, 'disableTransfer', _disable=True)
        for to in ('xACT1', 'xFT1'):
            yield tx('owner', T, 'issue', _to='@' + to, _amount=1)
        for pr in ((T, 'issue', ['@ACT1', 1], 0, True), (T, 'destroy', ['@ACT1', 1], 0, True),
                   (T, 'destroy', ['@alice', 1], 0, True), (T, 'disableTransfer', [True], 0, True)):
            yield tx('bob', 'ACT1', 'run', _prog=prog(pr))

    def invariant(self, W):
        return W.conserved()

    def step_invariant(self, W, op, before, ok, ret, events):
        if not ok or op[0] != 'tx':
            return None
        own = before[(A(T), 'getOwner')]
        d = W.o(T, 'totalSupply') - before[(A(T), 'totalSupply')]
        if op[2] == A(T):
            if d > 0 and op[1] != own:
                return 'supply grew by %d in a call of %s, not the owner' % (d, op[1])
            if d < 0 and op[1] != own and op[4].get('_from') != op[1]:
                return 'tokens of another account burned by a non-owner'
            if W.o(T, 'getTransferPossibility') != before[(A(T), 'getTransferPossibility')] and op[1] != own:
                return 'freeze flag changed by a non-owner'
        return None


class Whole(Mint):
    """One account holds everything there is."""
    holder = 'alice'

    def setup(self):
        ops = tok(T, 'FT', 7) + [deploy('ACT', 'ACT1', 'bob', _mode='ok'), deploy('ACT', 'ACT2', 'bob', _mode='rej'),
                                 deploy('MUTE', 'MUTE', 'bob')]
        return ops + (give(T, 'owner', (self.holder, 7)) if self.holder != 'owner' else [])

    def alphabet(self, M, depth):
        for who in ('owner', self.holder) if self.holder != 'ACT1' else ('owner',):
            for frm in (self.holder, 'owner', 'eve'):
                for n in sorted({1, bal(M, T, frm)}):
                    yield tx(who, T, 'destroy', _from='@' + frm, _amount=n)
        if self.holder == 'ACT1':
            yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'destroy', ['@ACT1', 7], 0, False)))
            yield tx('bob', 'ACT1', 'run', _prog=prog((T, 'destroy', ['@ACT1', 6], 0, False), (T, 'destroy', ['@ACT1', 1], 0, False)))
        yield tx('owner', T, 'issue', _to='@eve', _amount=1)
        yield tx('owner', T, 'issue', _to='@' + self.holder, _amount=2)
        yield tx('owner', T, 'disableTransfer', _disable=True)
        yield tx('owner', T, 'transferOwnerShip', _newOwner='@bob')
        yield tx('bob', T, 'acceptOwnerShip')

    def probes(self, M, depth):
        for who in CALLERS:
            for frm in ('owner', 'alice', 'eve', 'ACT1'):
                b = bal(M, T, frm)
                for n in sorted({1, b, b + 1}):
                    yield tx(who, T, 'destroy', _from='@' + frm, _amount=n)
            yield tx(who, T, 'issue', _to='@bob', _amount=1)


class ViaConverter(Market):
    """A converter that owns the token: the former owner and the converter's owner have no direct rights."""
    views = VIEWS
    conns = (('TK1', 500000, 10000, None),)
    watch = ('owner', 'alice', 'bob', 'eve')

    def alphabet(self, M, depth):
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 100)
        yield convert('alice', ('FT1', 'FT1', 'TK1'), 100)
        yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=True)
        yield tx('owner', 'CONV1', 'disableTokenTransfers', _disable=False)
        yield tx('eve', 'CONV1', 'disableTokenTransfers', _disable=True)
        yield tx('owner', 'CONV1', 'transferTokenOwnership', _newOwner='@bob')
        yield tx('eve', 'CONV1', 'transferTokenOwnership', _newOwner='@eve')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        for w in ('bob', 'eve', 'owner'):
            yield tx(w, 'FT1', 'acceptOwnerShip')
        yield tx('bob', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')

    def probes(self, M, depth):
        for who in CALLERS:
            for n in (1, 50):
                yield tx(who, 'FT1', 'issue', _to='@' + who, _amount=n)
                for frm in ('alice', 'CONV1', who):
                    yield tx(who, 'FT1', 'destroy', _from='@' + frm, _amount=n)
            for v in (True, False):
                yield tx(who, 'FT1', 'disableTransfer', _disable=v)


def tasks(tier):
    yield Mint('mint', depth={'quick': 3, 'thorough': 4}, parts={'quick': 4, 'thorough': 16})
    for who in ('alice', 'ACT1', 'owner'):
        yield Whole('whole-' + who, holder=who, depth={'quick': 3, 'thorough': 4}, parts={'quick': 2, 'thorough': 8})
    yield ViaConverter('via-converter', depth={'quick': 4, 'thorough': 4}, parts={'quick': 4, 'thorough': 8})
    yield Mint('mint-large', depth={'quick': 2, 'thorough': 3}, parts={'quick': 4, 'thorough': 8}, unit=BIG)
