"""Harness contracts (not part of icon-dex): recipients, proxies and hostile tokens used by the drivers."""
from . import chain  # noqa: F401  (sets up sys.path / patches)
from iconservice import *
from iconservice.iconscore.icon_score_base import IconScoreBase


def _dec(v):
    # JSON argument encoding used by programs: "@cx.." / "@hx.." address, "b:hex" bytes, "s:.." str
    if isinstance(v, str):
        if v.startswith('@'):
            return Address.from_string(v[1:])
        if v.startswith('b:'):
            return bytes.fromhex(v[2:])
        if v.startswith('s:'):
            return v[2:]
    return v


class Actor(IconScoreBase):
    """Programmable contract.  mode: 'ok' accepts tokens, 'rej' rejects; program steps run inside the
    callbacks ('onToken', 'onCoin') at most `_budget` times, or on request ('run')."""

    @eventlog
    def Got(self, _token: Address, _from: Address, _value: int, _data: bytes):
        pass

    @eventlog
    def GotCoin(self, _from: Address, _value: int):
        pass

    @eventlog
    def Saw(self, _what: str):
        pass

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._mode = VarDB('mode', db, value_type=str)
        self._tok = VarDB('onToken', db, value_type=str)
        self._coin = VarDB('onCoin', db, value_type=str)
        self._budget = VarDB('budget', db, value_type=int)

    def on_install(self, _mode: str, _onToken: str = '', _onCoin: str = '', _budget: int = 1) -> None:
        super().on_install()
        self._mode.set(_mode)
        self._tok.set(_onToken)
        self._coin.set(_onCoin)
        self._budget.set(_budget)

    def on_update(self) -> None:
        super().on_update()

    def _exec(self, prog):
        for step in json_loads(prog):
            to, method, args, value, catch = step
            to = _dec(to)
            args = tuple(_dec(a) for a in args)
            try:
                spoil = method is not None and method.startswith('~')
                ret = self._context.internal_call.other_external_call(
                    self.address, to, method[1:] if spoil else method, args, {}, value)
                self.Saw('ok:' + (str(ret) if method is not None else ''))
                if spoil:
                    # a caller may do what it likes with the object it is handed
                    if isinstance(ret, list):
                        ret.reverse()
                        ret.append('spoilt')
                        del ret[0]
                    elif isinstance(ret, dict):
                        ret.clear()
            except BaseException as e:
                if not catch or isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                    raise
                self.Saw('fail')

    def _react(self, prog):
        if prog and self._budget.get() > 0:
            self._budget.set(self._budget.get() - 1)
            self._exec(prog)

    @external
    def run(self, _prog: str):
        self._exec(_prog)

    @external
    def setup(self, _mode: str, _onToken: str, _onCoin: str, _budget: int):
        self._mode.set(_mode)
        self._tok.set(_onToken)
        self._coin.set(_onCoin)
        self._budget.set(_budget)

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        if self._mode.get() == 'rej':
            revert('no tokens please')
        self.Got(self.msg.sender, _from, _value, _data)
        self._react(self._tok.get())

    @payable
    def fallback(self):
        if self._mode.get() in ('rej', 'rejcoin'):
            revert('no coins please')
        self.GotCoin(self.msg.sender, self.msg.value)
        self._react(self._coin.get())


class Mute(IconScoreBase):
    """A contract with neither tokenFallback nor payable fallback."""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external(readonly=True)
    def hello(self) -> int:
        return 1


class FakeFT(IconScoreBase):
    """Names an arbitrary address as its 'owner': used as a hostile pointer in conversion paths."""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._owner_ = VarDB('o', db, value_type=Address)

    def on_install(self, _o: Address) -> None:
        super().on_install()
        self._owner_.set(_o)

    def on_update(self) -> None:
        super().on_update()

    @external(readonly=True)
    def getOwner(self) -> Address:
        return self._owner_.get()


class Evil(Actor):
    """Hostile token / pointer: every method of the token interface runs a program of its own."""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._ptr = VarDB('ptr', db, value_type=Address)
        self._onTransfer = VarDB('onTransfer', db, value_type=str)
        self._onOwner = VarDB('onOwner', db, value_type=str)
        self._balance = VarDB('balance', db, value_type=int)

    def on_install(self, _ptr: Address, _onTransfer: str, _onOwner: str, _balance: int, _budget: int) -> None:
        IconScoreBase.on_install(self)
        self._mode.set('ok')
        self._tok.set('')
        self._coin.set('')
        self._budget.set(_budget)
        self._ptr.set(_ptr)
        self._onTransfer.set(_onTransfer)
        self._onOwner.set(_onOwner)
        self._balance.set(_balance)

    @external
    def getOwner(self) -> Address:
        self._react(self._onOwner.get())
        return self._ptr.get()

    @external
    def balanceOf(self, _owner: Address) -> int:
        # grows every time it is asked
        n = self._balance.get()
        self._balance.set(n + 5)
        return n

    @external
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        self._react(self._onTransfer.get())

    @external
    def withdrawTo(self, _amount: int, _to: Address):
        self._react(self._onTransfer.get())


class QuietToken(IconScoreBase):
    """A token that never notifies its recipients (so that stray tokens can sit in any contract)."""

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._bal = DictDB('bal', db, value_type=int)
        self._total = VarDB('total', db, value_type=int)

    def on_install(self, _name: str, _symbol: str, _initialSupply: int, _decimals: int) -> None:
        super().on_install()
        self._bal[self.msg.sender] = _initialSupply
        self._total.set(_initialSupply)

    def on_update(self) -> None:
        super().on_update()

    @external(readonly=True)
    def totalSupply(self) -> int:
        return self._total.get()

    @external(readonly=True)
    def balanceOf(self, _owner: Address) -> int:
        return self._bal[_owner]

    @external
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        if _value < 0 or self._bal[self.msg.sender] < _value:
            revert('no')
        self._bal[self.msg.sender] = self._bal[self.msg.sender] - _value
        self._bal[_to] = self._bal[_to] + _value
