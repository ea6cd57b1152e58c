"""In-process ICON chain around the *real* contracts of /repo and the *real* iconservice engine.

What is real: contract classes (imported as contracts.* from the working tree), IconScoreBase dispatch
(external / payable / readonly checks), InternalCall (nested calls, coin transfer, per-call rollback),
TransactionBatch, IcxEngine/IcxStorage, container DBs, event logs, JSON-RPC parameter conversion.
What is substituted: LevelDB -> dict, deploy bookkeeping -> registry of instances, the governance
blacklist -> empty, step costs -> a counter (used for fault injection).

State of the chain = key/value dict + Python-level state of the long-lived SCORE instances (the platform
keeps one instance per contract across transactions) + module/class level state of the contract package.
All three are captured, restored and hashed, so branches of the exploration never see each other.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get('MC_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

from iconservice.base.address import Address, AddressPrefix  # noqa: E402
from iconservice.base.block import Block  # noqa: E402
from iconservice.base.exception import InvalidParamsException, RevertException  # noqa: E402
from iconservice.base.message import Message  # noqa: E402
from iconservice.base.transaction import Transaction  # noqa: E402
from iconservice.base.type_converter import TypeConverter  # noqa: E402
from iconservice.database.batch import BlockBatch, TransactionBatch  # noqa: E402
from iconservice.database.db import (ContextDatabase, DatabaseObserver, IconScoreDatabase)  # noqa: E402
from iconservice.icon_constant import IconScoreContextType, IconScoreFuncType  # noqa: E402
from iconservice.iconscore import icon_container_db as _cdb  # noqa: E402
from iconservice.iconscore.icon_container_db import ArrayDB, ContainerUtil, DictDB, VarDB  # noqa: E402
from iconservice.iconscore.icon_score_base import IconScoreBase  # noqa: E402
from iconservice.iconscore.icon_score_context import ContextContainer, IconScoreContext  # noqa: E402
from iconservice.iconscore.icon_score_step import OutOfStepException, StepType  # noqa: E402
from iconservice.iconscore.icx import Icx  # noqa: E402
from iconservice.iconscore.internal_call import InternalCall  # noqa: E402
from iconservice.icx.icx_account import Account  # noqa: E402
from iconservice.icx.icx_engine import IcxEngine  # noqa: E402
from iconservice.icx.icx_storage import IcxStorage  # noqa: E402
from iconcommons.logger import Logger  # noqa: E402

for _n in ('debug', 'info', 'warning', 'error', 'exception'):
    if hasattr(Logger, _n):
        setattr(Logger, _n, staticmethod(lambda *a, **k: None))

ZERO_SCORE = Address.from_prefix_and_int(AddressPrefix.CONTRACT, 0)


# --- platform substitution: iconservice 1.1.2 caches ArrayDB's size in the instance and does not undo it
# when a transaction is rolled back.  That is a platform defect outside icon-dex, so the size is read
# from (and written to) the database instead; the observable container semantics are unchanged.
def _patch_array_db():
    key = ContainerUtil.encode_key('size')

    def size(self):
        return ContainerUtil.decode_object(self._db.get(key), int)

    def set_size(self, n):
        self._db.put(key, ContainerUtil.encode_value(n))

    def put(self, value):
        n = size(self)
        self._db.put(ContainerUtil.encode_key(n), ContainerUtil.encode_value(value))
        set_size(self, n + 1)

    def pop(self):
        n = size(self)
        if n == 0:
            return None
        v = self[n - 1]
        self._db.delete(ContainerUtil.encode_key(n - 1))
        set_size(self, n - 1)
        return v

    vt = '_ArrayDB__value_type'

    def getitem(self, index):
        if isinstance(index, int):
            n = size(self)
            if index < 0:
                index += n
            if index < 0 or index >= n:
                raise _cdb.ContainerDBException('ArrayDB out of range, %s' % index)
            return ContainerUtil.decode_object(self._db.get(ContainerUtil.encode_key(index)), getattr(self, vt))

    def setitem(self, index, value):
        if index >= size(self):
            raise _cdb.ContainerDBException('ArrayDB out of range')
        self._db.put(ContainerUtil.encode_key(index), ContainerUtil.encode_value(value))

    def it(self):
        i = 0
        while i < size(self):
            yield self[i]
            i += 1

    ArrayDB.put, ArrayDB.pop, ArrayDB.__len__ = put, pop, size
    ArrayDB.__getitem__, ArrayDB.__setitem__, ArrayDB.__iter__ = getitem, setitem, it
    ArrayDB._ArrayDB__get_size = lambda self: 0


_patch_array_db()


# --- cheap canonical address objects: same observable type, cached string form
def addr(n, contract):
    return Address.from_prefix_and_int(AddressPrefix.CONTRACT if contract else AddressPrefix.EOA, n)


class MemKV(object):
    __slots__ = ('d',)

    def __init__(self):
        self.d = {}

    def get(self, key):
        return self.d.get(key)

    def put(self, key, value):
        self.d[key] = value

    def delete(self, key):
        self.d.pop(key, None)

    def close(self):
        pass


class Steps(object):
    """Step counter. fail_at=k raises out-of-step at the k-th charge; limit stops runaway code."""
    __slots__ = ('n', 'fail_at', 'step_limit')

    def __init__(self, fail_at=None):
        self.n = 0
        self.fail_at = fail_at
        self.step_limit = 400000

    @property
    def step_used(self):
        return self.n

    def apply_step(self, step_type, count):
        self.n += 1
        if self.n == self.fail_at or self.n > self.step_limit:
            raise OutOfStepException(self.step_limit, self.n, count, step_type)

    def increase_step(self, *a):
        return self.n


class _Null(object):
    def append(self, x):
        pass


class Faults(object):
    """Call-level fault injection: the k-th nested call (1-based) fails as if the callee reverted."""
    __slots__ = ('n', 'fail_at', 'when')

    def __init__(self, fail_at=None, when='before'):
        self.n = 0
        self.fail_at = fail_at
        self.when = when


class FaultyInternalCall(InternalCall):
    def __init__(self, context):
        super().__init__(context)
        self.ctx = context
        self.faults = None

    def _call(self, addr_from, addr_to, func_name, arg_params, kw_params, amount):
        f = self.faults
        if f is None:
            return super()._call(addr_from, addr_to, func_name, arg_params, kw_params, amount)
        f.n += 1
        k = f.n
        if k == f.fail_at:
            if f.when == 'before':
                raise RevertException('injected')
            self.ctx.enter_call()
            try:
                super()._call(addr_from, addr_to, func_name, arg_params, kw_params, amount)
                self.ctx.revert_call()
            finally:
                self.ctx.leave_call()
            raise RevertException('injected')
        return super()._call(addr_from, addr_to, func_name, arg_params, kw_params, amount)

    def _make_trace(self, *a):
        pass


# Blocks pass between transactions: some in the same block, most in the next ones, some a year later
YEAR = 15768000
PACE = (1, 0, 1, YEAR, 0, 2)
_blocks = {}


def block_at(clock):
    """The block the clock-th transaction is in."""
    b = _blocks.get(clock)
    if b is None:
        n, k = divmod(clock, len(PACE))
        h = 1 + n * sum(PACE) + sum(PACE[:k + 1])
        b = _blocks[clock] = Block(h, h.to_bytes(32, 'big'), 1546300800000000 + h * 2000000, (h - 1).to_bytes(32, 'big'))
    return b


class Ctx(IconScoreContext):
    chain = None

    def __init__(self, chain, ctype):
        super().__init__(ctype)
        self.chain = chain
        self.internal_call = FaultyInternalCall(self)
        self.traces = _Null()
        self.block = block_at(0)
        self.tx = None

    def get_icon_score(self, address):
        s = self.chain.scores.get(address)
        if s is None:
            raise InvalidParamsException('SCORE is inactive: %s' % address)
        return s

    def validate_score_blacklist(self, score_address):
        pass

    def get_owner(self, context, score_address):
        return self.chain.deployers.get(score_address)

    def is_score_active(self, context, score_address):
        return score_address in self.chain.scores

    def get_revision(self):
        return 0


_PRIM = (int, str, bytes, bool, float, type(None))
_DBT = (VarDB, DictDB, ArrayDB, IconScoreDatabase, ContextDatabase, DatabaseObserver, Icx, MemKV)
_OPAQUE = (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodType, property,
           staticmethod, classmethod)


def canon(v, _depth=0):
    """Canonical hashable form of Python-level state (container DB handles are stateless)."""
    if isinstance(v, _PRIM):
        return v
    if isinstance(v, Address):
        return str(v)
    if isinstance(v, _DBT):
        return 'db'
    if isinstance(v, _OPAQUE):
        return ('o', getattr(v, '__qualname__', None) or getattr(v, '__name__', ''))
    if _depth > 8:
        return 'deep'
    if isinstance(v, dict):
        return ('d',) + tuple(sorted(((repr(canon(k, _depth + 1)), canon(x, _depth + 1)) for k, x in v.items()),
                                     key=lambda kv: kv[0]))
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(canon(x, _depth + 1) for x in v)
    if isinstance(v, (set, frozenset)):
        return ('s',) + tuple(sorted(repr(canon(x, _depth + 1)) for x in v))
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, IconScoreBase):
        return ('score', str(v.address))
    d = getattr(v, '__dict__', None)
    if d is not None and _depth < 6:
        return ('x', type(v).__qualname__) + tuple(sorted((k, canon(x, _depth + 1)) for k, x in d.items()))
    return ('?', type(v).__qualname__)


def clone(v, memo=None, _depth=0):
    """Copy of Python-level state; DB handles, classes, functions and addresses are shared."""
    if isinstance(v, _PRIM) or isinstance(v, (Address, IconScoreBase)) or isinstance(v, _DBT) \
            or isinstance(v, _OPAQUE):
        return v
    if memo is None:
        memo = {}
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, dict):
        r = memo[id(v)] = type(v)() if type(v) is not dict else {}
        for k, x in v.items():
            r[k] = clone(x, memo, _depth + 1)
        return r
    if isinstance(v, list):
        r = memo[id(v)] = []
        r.extend(clone(x, memo, _depth + 1) for x in v)
        return r
    if isinstance(v, tuple):
        return tuple(clone(x, memo, _depth + 1) for x in v)
    if isinstance(v, (set, bytearray)):
        return type(v)(v)
    d = getattr(v, '__dict__', None)
    if d is None:
        return v
    try:
        r = object.__new__(type(v))
    except TypeError:
        return v
    memo[id(v)] = r
    for k, x in d.items():
        r.__dict__[k] = clone(x, memo, _depth + 1)
    return r


class Globals(object):
    """Watches module and class level data of the contract package (mutable caches, rebindings)."""

    def __init__(self):
        self.refresh()

    def refresh(self):
        self.spaces = []
        seen = set()
        for name in sorted(sys.modules):
            if not (name == 'contracts' or name.startswith('contracts.')):
                continue
            m = sys.modules[name]
            self.spaces.append((m, m.__dict__))
            for c in list(m.__dict__.values()):
                if isinstance(c, type) and getattr(c, '__module__', '').startswith('contracts') \
                        and c not in seen:
                    seen.add(c)
                    self.spaces.append((c, c.__dict__))
        self.base = [dict(d) for _, d in self.spaces]
        self.mut = []       # (space index, name, object, saved copy)
        for i, d in enumerate(self.base):
            for k, v in d.items():
                if k.startswith('__') or k.startswith('_abc'):
                    continue
                if self._mutable(v):
                    self.mut.append((i, k, v, clone(v), canon(v)))

    @staticmethod
    def _mutable(v):
        if isinstance(v, (dict, list, set, bytearray)):
            return True
        if isinstance(v, _PRIM) or isinstance(v, _OPAQUE) or isinstance(v, (tuple, frozenset, Address)):
            return False
        return getattr(type(v), '__module__', '').startswith('contracts') and hasattr(v, '__dict__')

    def capture(self):
        """None when everything is as at the baseline, otherwise (canonical form, restorable copy)."""
        out = []
        for i, (o, d) in enumerate(self.spaces):
            b = self.base[i]
            if len(d) != len(b) or any(d.get(k, self) is not v for k, v in b.items()):
                ch = {}
                for k in set(d) | set(b):
                    if k.startswith('__') or k.startswith('_abc'):
                        continue
                    if d.get(k, self) is not b.get(k, self):
                        ch[k] = clone(d[k]) if k in d else self
                if ch:
                    out.append((i, None, ch, canon({k: (v if v is not self else '<del>') for k, v in ch.items()})))
        for i, k, v, saved, c0 in self.mut:
            if isinstance(v, (dict, list, set, bytearray)) and v == saved and not self._nested(v):
                continue
            c = canon(v)
            if c != c0:
                out.append((i, k, clone(v), c))
        if not out:
            return None
        return (tuple((x[0], x[1], x[3]) for x in out), out)

    @staticmethod
    def _nested(v):
        vals = v.values() if isinstance(v, dict) else v
        for x in vals:
            if not isinstance(x, _PRIM) and not isinstance(x, (tuple, Address)) and not isinstance(x, _OPAQUE):
                return True
        return False

    def _put(self, o, k, v):
        if v is self:
            try:
                delattr(o, k)
            except AttributeError:
                pass
        else:
            setattr(o, k, v)

    def restore(self, cap):
        for i, (o, d) in enumerate(self.spaces):
            b = self.base[i]
            for k in list(d):
                if k.startswith('__') or k.startswith('_abc'):
                    continue
                if d.get(k, self) is not b.get(k, self):
                    self._put(o, k, b[k] if k in b else self)
            for k in b:
                if k not in d:
                    self._put(o, k, b[k])
        for i, k, v, saved, c0 in self.mut:
            self._fill(v, saved)
        if cap:
            for i, k, val, _ in cap[1]:
                if k is None:
                    for kk, vv in val.items():
                        self._put(self.spaces[i][0], kk, clone(vv) if vv is not self else vv)
                else:
                    self._fill(self.base[i][k], val)

    @staticmethod
    def _fill(v, saved):
        s = clone(saved)
        if isinstance(v, dict):
            v.clear()
            v.update(s)
        elif isinstance(v, (list, bytearray)):
            v[:] = s
        elif isinstance(v, set):
            v.clear()
            v.update(s)
        else:
            v.__dict__.clear()
            v.__dict__.update(s.__dict__)


def encode_param(v):
    """The JSON-RPC encoding of a parameter value."""
    if isinstance(v, bool):
        return '0x1' if v else '0x0'
    if isinstance(v, int):
        return hex(v)
    if isinstance(v, Address):
        return str(v)
    if isinstance(v, bytes):
        return '0x' + v.hex()
    if isinstance(v, Raw):
        return v.s
    return v


class Raw(object):
    """A parameter sent to the contract exactly as the given string (malformed-input alphabets)."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Raw) and o.s == self.s

    def __hash__(self):
        return hash(('Raw', self.s))

    def __repr__(self):
        return 'Raw(%r)' % self.s


class Result(object):
    __slots__ = ('ok', 'ret', 'events', 'err', 'steps', 'calls')

    def __init__(self, ok, ret=None, events=(), err=None, steps=0, calls=0):
        self.ok, self.ret, self.events, self.err, self.steps, self.calls = ok, ret, events, err, steps, calls


class State(object):
    __slots__ = ('kv', 'sigs', 'saved', 'glob', 'key', 'clock')


class Chain(object):
    def __init__(self):
        self.kv = MemKV()
        self.ctxdb = ContextDatabase(self.kv)
        self.scores = {}
        self.order = []
        self.deployers = {}
        self.classes = {}
        self.icx = IcxEngine()
        self.icx._storage = IcxStorage(self.ctxdb)
        InternalCall.icx_engine = self.icx
        self.ctx = Ctx(self, IconScoreContextType.INVOKE)
        self.qctx = Ctx(self, IconScoreContextType.QUERY)
        self.globals = Globals()
        self._hints = {}
        self.clock = 0

    # -- plumbing -------------------------------------------------------------------------------
    def _enter(self, ctx, sender, value, func_type, steps, faults):
        ctx.func_type = func_type
        ctx.msg = Message(sender, value)
        ctx.block = b = block_at(self.clock)
        ctx.tx = Transaction(tx_hash=(self.clock + 2).to_bytes(32, 'big'), index=0, origin=sender, timestamp=b.timestamp,
                             nonce=0)
        ctx.step_counter = steps
        ctx.internal_call.faults = faults
        ctx.msg_stack = []
        ctx.event_log_stack = []
        ctx.event_logs = []
        ctx.block_batch = _EMPTY_BLOCK
        ctx.tx_batch = TransactionBatch(b'\x02' * 32)
        ContextContainer._push_context(ctx)

    def _commit(self, batch):
        d = None
        for k in batch:
            if d is None:
                d = dict(self.kv.d)
            v = batch[k]
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        if d is not None:
            self.kv.d = d

    def set_icx(self, address, amount):
        a = Account()
        a.address = address
        a.deposit(amount)
        d = dict(self.kv.d)
        d[address.to_bytes()] = a.to_bytes()
        self.kv.d = d

    def icx_of(self, address):
        v = self.kv.d.get(address.to_bytes())
        return Account.from_bytes(v).icx if v else 0

    def total_icx(self):
        t = 0
        for k, v in self.kv.d.items():
            if len(k) <= 21:
                t += Account.from_bytes(v).icx
        return t

    def _run(self, sender, value, fn, fail_step=None, fault=None):
        ctx = self.ctx
        self.clock += 1
        steps = Steps(fail_step)
        self._enter(ctx, sender, value, IconScoreFuncType.WRITABLE, steps, fault)
        try:
            ret = fn(ctx)
            ev = ctx.event_logs
            self._commit(ctx.tx_batch)
            return Result(True, ret, tuple(ev), None, steps.n, fault.n if fault else 0)
        except (KeyboardInterrupt, SystemExit, MemoryError, GeneratorExit):
            raise
        except BaseException as e:
            return Result(False, None, (), '%s: %s' % (type(e).__name__, getattr(e, 'message', e)), steps.n,
                          fault.n if fault else 0)
        finally:
            ContextContainer._pop_context()

    def _convert(self, score, method, params):
        # as IconScoreEngine._convert_score_params_by_annotations
        score.validate_external_method(method)
        key = (type(score), method)
        h = self._hints.get(key)
        if h is None:
            h = self._hints[key] = TypeConverter.make_annotations_from_method(getattr(score, method))
        p = {k: encode_param(v) for k, v in params.items() if v is not None}
        TypeConverter.convert_data_params(h, p)
        return p

    # -- operations -----------------------------------------------------------------------------
    def deploy(self, cls, address, owner, params):
        def fn(ctx):
            db = IconScoreDatabase(address, self.ctxdb)
            self.deployers[address] = owner
            inst = cls(db)
            self.scores[address] = inst
            hints = TypeConverter.make_annotations_from_method(inst.on_install)
            p = {k: encode_param(v) for k, v in params.items() if v is not None}
            TypeConverter.convert_data_params(hints, p)
            for k in hints:
                if k in params and params[k] is None:
                    p[k] = None
            inst.on_install(**p)

        r = self._run(owner, 0, fn)
        if r.ok:
            self.classes[address] = cls
            if address not in self.order:
                self.order.append(address)
        else:
            self.scores.pop(address, None)
            self.deployers.pop(address, None)
        return r

    def update(self, address, owner):
        """Contract update to the same code: new instance over the same storage, on_update() runs."""
        old = self.scores[address]

        def fn(ctx):
            inst = self.classes[address](IconScoreDatabase(address, self.ctxdb))
            self.scores[address] = inst
            inst.on_update()

        r = self._run(owner, 0, fn)
        if not r.ok:
            self.scores[address] = old
        return r

    def restart(self):
        """Node restart: every SCORE instance is re-created over the stored state."""
        self.globals.restore(None)

        def fn(ctx):
            for a in self.order:
                self.scores[a] = self.classes[a](IconScoreDatabase(a, self.ctxdb))
        return self._run(self.order[0], 0, fn)

    def tx(self, sender, to, method, params=None, value=0, fail_step=None, fault=None):
        def fn(ctx):
            self.icx.transfer(ctx, sender, to, value)
            if not to.is_contract:
                return None
            score = ctx.get_icon_score(to)
            if method is None:
                score._IconScoreBase__fallback_call()
                return None
            if score._IconScoreBase__is_func_readonly(method) if hasattr(score, method) else False:
                ctx.func_type = IconScoreFuncType.READONLY
            p = self._convert(score, method, params or {})
            return score._IconScoreBase__external_call(func_name=method, arg_params=[], kw_params=p)

        return self._run(sender, value, fn, fail_step, fault)

    def query(self, to, method, params=None, convert=False):
        """icx_call: (True, value) or (False, None)."""
        ctx = self.qctx
        self._enter(ctx, None, 0, IconScoreFuncType.READONLY, Steps(), None)
        try:
            score = ctx.get_icon_score(to)
            p = self._convert(score, method, params or {}) if convert else (params or {})
            return True, score._IconScoreBase__external_call(func_name=method, arg_params=[], kw_params=p)
        except (KeyboardInterrupt, SystemExit, MemoryError, GeneratorExit):
            raise
        except BaseException as e:
            return False, None
        finally:
            ContextContainer._pop_context()

    # -- state ------------------------------------------------------------------------------------
    def _sig(self, a):
        return tuple((k, canon(v)) for k, v in vars(self.scores[a]).items()
                     if not isinstance(v, _DBT) and not (isinstance(v, Address) and k.startswith('_IconScoreBase')))

    def save(self, parent=None):
        s = State()
        s.kv = self.kv.d
        s.clock = self.clock
        s.sigs = {}
        s.saved = {}
        for a in self.order:
            inst = self.scores[a]
            g = (id(inst), self._sig(a))
            s.sigs[a] = g
            if parent is not None and parent.sigs.get(a) == g:
                s.saved[a] = parent.saved[a]
            else:
                s.saved[a] = (inst, {k: clone(v) for k, v in vars(inst).items()})
        s.glob = self.globals.capture()
        pysig = tuple((str(a), s.sigs[a][1]) for a in self.order)
        s.key = hash_state(s.kv, (pysig, s.glob[0] if s.glob else None))
        return s

    def load(self, s, live=None):
        """Make s the live state."""
        self.kv.d = s.kv
        self.clock = s.clock
        for a in self.order:
            inst, d = s.saved[a]
            if live is not None and live.sigs.get(a) == s.sigs[a] and self.scores[a] is inst:
                continue
            self.scores[a] = inst
            if s.sigs[a] != (id(inst), self._sig(a)):
                vars(inst).clear()
                vars(inst).update({k: clone(v) for k, v in d.items()})
        if self.globals.capture() is not None or s.glob is not None:
            self.globals.restore(s.glob)


_EMPTY_BLOCK = BlockBatch()


def hash_state(kv, extra):
    import hashlib
    h = hashlib.blake2b(digest_size=16)
    for k in sorted(kv):
        h.update(k)
        h.update(b'=')
        h.update(kv[k])
        h.update(b';')
    h.update(repr(extra).encode())
    return h.digest()
