"""C25: contract proxies and the storage wrapper are faithful."""
import importlib
import inspect
import itertools
import sys

from .. import chain as CH
from .. import explore as X
from ..cases import Cases
from ..chain import Address, ArrayDB, DictDB, VarDB
from ..explore import A, show

from iconservice import external  # noqa: E402

RULE = ('proxies: all creation orders (with repetitions) up to the stated length over the declared interfaces and '
        'artificial colliding ones x target addresses; after every creation every proxy created so far is called through '
        'the real platform with positional, keyword and defaulted arguments and what the target received and returned is '
        'compared; storage: breadth first over field operations on the real container databases in lockstep with plain '
        'Python values, with re-creation of the wrapper; states = creation orders and distinct storage states, '
        'transitions = proxy calls and field operations')

REAL = ('abc_irc_token.ABCIRCToken', 'abc_flexible_token.ABCFlexibleToken', 'abc_icx_token.ABCIcxToken',
        'abc_owned.ABCOwned', 'abc_token_holder.ABCTokenHolder', 'abc_converter.ABCConverter',
        'abc_score_registry.ABCScoreRegistry')
CLASS_OF = {'ABCIRCToken': ('irc_token.irc_token', 'IRCToken'), 'ABCFlexibleToken': ('flexible_token.flexible_token',
            'FlexibleToken'), 'ABCIcxToken': ('icx_token.icx_token', 'IcxToken'), 'ABCOwned': ('network.network', 'Network'),
            'ABCTokenHolder': ('network.network', 'Network'), 'ABCConverter': ('converter.converter', 'Converter'),
            'ABCScoreRegistry': ('score_registry.score_registry', 'ScoreRegistry')}

ARTIFICIAL = '''
from iconservice import *

class ABCSame(ABC):
    @abstractmethod
    def ping(self, _a: int, _b: str = "one") -> str: pass
    @abstractmethod
    def only_first(self) -> str: pass
    def helper(self) -> str:
        return "local"
first = ABCSame

class ABCSame(ABC):
    @abstractmethod
    def ping(self, _b: str = "two", _a: int = 5) -> str: pass
    @abstractmethod
    def only_second(self, _x: int) -> str: pass
second = ABCSame

class ABCChild(first):
    @abstractmethod
    def extra(self, _v: bytes = None) -> str: pass
    @abstractmethod
    def falsy(self, _a: int, _i: int = 0, _s: str = "", _f: bool = False, _y: bytes = b"") -> str: pass

class ABCOverride(first):
    @abstractmethod
    def ping(self, _a: int, _b: str = "three", _c: int = 7) -> str: pass

class ABCBoth(ABCChild, second):
    @abstractmethod
    def both(self, _a: int, _b: int, _c: int, _d: int = 4) -> str: pass

class ABCNames(ABC):
    @abstractmethod
    def get(self) -> str: pass
    @abstractmethod
    def getAll(self, _a: int) -> str: pass
    @abstractmethod
    def get_all(self, _a: int, _b: str = "x") -> str: pass
    @abstractmethod
    def get_all_of(self, _b: str, _a: int = 3) -> str: pass
    @abstractmethod
    def GET(self, _a: bool) -> str: pass
    @abstractmethod
    def aMethodWithAVeryLongNameIndeedOne(self, _a: int) -> str: pass
    @abstractmethod
    def aMethodWithAVeryLongNameIndeedTwo(self, _a: int) -> str: pass
    @abstractmethod
    def transfer(self, _to: Address, _value: int, _data: bytes = b"zero") -> str: pass
ALL = [first, second, ABCChild, ABCOverride, ABCBoth, ABCNames]
'''


def load_fresh():
    """The proxy module and all interfaces, imported anew (proxies are cached per process)."""
    drop = [k for k in sys.modules if k.startswith('contracts.interfaces') or k == 'contracts.utility.proxy_score']
    saved = {k: sys.modules.pop(k) for k in drop}
    try:
        P = importlib.import_module('contracts.utility.proxy_score').ProxyScore
        out = {}
        for n in REAL:
            m, c = n.split('.')
            out[c] = getattr(importlib.import_module('contracts.interfaces.' + m), c)
        return P, out
    finally:
        for k in list(sys.modules):
            if k.startswith('contracts.interfaces') or k == 'contracts.utility.proxy_score':
                del sys.modules[k]
        sys.modules.update(saved)


def abstract(cls):
    return sorted(n for n in dir(cls) if getattr(getattr(cls, n), '__isabstractmethod__', False))


def target_class(name, cls):
    """A contract that records every call of the interface and returns something recognisable."""
    from iconservice import eventlog, external
    ns = {'__init__': lambda self, db: super(T, self).__init__(db), 'on_install': lambda self: None,
          'on_update': lambda self: None}
    glob = {'Address': Address, 'external': external}
    for n in abstract(cls):
        sig = inspect.signature(getattr(cls, n))
        ps = [p for p in sig.parameters.values() if p.name != 'self']
        names = [p.name for p in ps]
        src = 'def %s(self%s):\n    return record(self, %r, (%s))\n' % (
            n, ''.join(', %s%s' % (p.name, '' if p.default is p.empty else '=%r' % (p.default,)) for p in ps), n,
            ''.join(x + ', ' for x in names))
        glob['record'] = record
        loc = {}
        exec(src, glob, loc)
        f = loc[n]
        f.__annotations__ = {p.name: p.annotation for p in ps if p.annotation is not p.empty}
        f.__qualname__ = '%s.%s' % (name, n)
        ns[n] = external(f)
    T = type(name, (CH.IconScoreBase,), ns)
    return T


LOG = []


def record(self, name, args):
    LOG.append((self.address, self.msg.sender, self.msg.value, name, args))
    return '%s@%s' % (name, self.address)


class Caller(CH.IconScoreBase):
    """The contract that uses the proxies."""

    def __init__(self, db):
        super().__init__(db)

    def on_install(self):
        super().on_install()

    def on_update(self):
        super().on_update()

    @external
    def idle(self):
        pass


class Proxies(Cases):
    length = {'quick': 3, 'thorough': 4}

    def cases(self, tier):
        n = len(REAL) + 6
        for L in range(1, self.length[tier] + 1):
            for s in itertools.product(range(n), repeat=L):
                yield s, tuple(k % 2 for k in range(L))
                if L > 1 and len(set(s)) < L:
                    yield s, (0,) * L
        # everything at once, in rotated orders
        for k in range(n):
            yield tuple((k + i) % n for i in range(n)), tuple(i % 2 for i in range(n))
            yield tuple((k - i) % n for i in range(n)), (0,) * n

    def describe(self, case):
        return 'creation order %s at targets %s' % ([self.names[i] for i in case[0]] if hasattr(self, 'names') else
                                                    case[0], case[1])

    def check(self, case):
        order, targets = case
        P, real = load_fresh()
        glob = {}
        exec(ARTIFICIAL, glob)
        ifs = [real[n.split('.')[1]] for n in REAL] + glob['ALL']
        # what the interfaces declare, before any proxy is made of them
        self.declared = {(c, n): [p for p in inspect.signature(getattr(c, n)).parameters.values() if p.name != 'self']
                         for c in ifs for n in abstract(c)}
        self.names = [n.split('.')[1] for n in REAL] + ['Same1', 'Same2', 'Child', 'Override', 'Both', 'Names']
        ch = CH.Chain()
        me = A('ACT1')
        r = ch.deploy(Caller, me, A('owner'), {})
        if not r.ok:
            raise AssertionError(r.err)
        ch.set_icx(me, 100)
        proxies = []
        for i, t in zip(order, targets):
            at = X.addr(0x5000 + 2 * i + t, True)
            if at not in ch.scores:
                r = ch.deploy(target_class('T%d' % i, ifs[i]), at, A('owner'), {})
                if not r.ok:
                    raise AssertionError(r.err)
            proxies.append((i, at))
        made = []

        def use(ctx):
            caller = ch.scores[me]
            for n, (i, at) in enumerate(proxies):
                made.append((i, at, caller.create_interface_score(at, P(ifs[i]))))
                last = n == len(proxies) - 1
                for i2, at2, px in made if last else made[-1:]:
                    d = self.calls(caller, px, ifs[i2], at2, me) or self.foreign(px, ifs[i2], ifs)
                    if d:
                        return d
            return None
        r = ch._run(me, 0, use)
        if not r.ok:
            return 'proxy', 'using the proxies failed: %s' % r.err
        if r.ret:
            return 'proxy', r.ret
        return None

    @staticmethod
    def foreign(px, cls, ifs):
        """The proxy offers no call that its own interface does not declare and another one does."""
        for c in ifs:
            for n in abstract(c):
                if not hasattr(cls, n) and hasattr(px, n):
                    return 'the proxy of %s offers %s, which only %s declares' % (cls.__name__, n, c.__name__)
        return None

    def calls(self, caller, px, cls, at, me):
        for n in sorted(n for c, n in self.declared if c is cls):
            f = getattr(px, n, None)
            if f is None:
                return 'the proxy of %s has no method %s' % (cls.__name__, n)
            ps = self.declared[cls, n]
            vals = []
            for k, p in enumerate(ps):
                t = p.annotation
                v = A('alice') if t is Address else {int: 7 + k, str: 's%d' % k, bytes: b'b%d' % k, bool: True}.get(t, 3 + k)
                vals.append(v)
            full = tuple(vals)
            must = sum(1 for p in ps if p.default is p.empty)
            dflt = tuple(p.default for p in ps)
            runs = [(full, {}, full)]
            if ps:
                runs.append(((), dict(zip([p.name for p in ps], full)), full))
                runs.append((full[:1], dict(zip([p.name for p in ps[1:]], full[1:])), full))
                runs.append(((), dict(reversed(list(zip([p.name for p in ps], full)))), full))
            if must < len(ps):
                runs.append((full[:must], {}, full[:must] + dflt[must:]))
                runs.append(((), dict(zip([p.name for p in ps[:must]], full)), full[:must] + dflt[must:]))
            for a, k, want in runs:
                del LOG[:]
                self.res['transitions'] += 1
                ret = f(*a, **k)
                if LOG != [(at, me, 0, n, want)]:
                    return 'calling %s.%s%s%s at %s: the target saw %s' % (
                        cls.__name__, n, show(a), show(k), at, show([x[:1] + x[3:] for x in LOG]))
                if ret != '%s@%s' % (n, at):
                    return 'calling %s.%s returned %s' % (cls.__name__, n, ret)
            now = [p for p in inspect.signature(getattr(cls, n)).parameters.values() if p.name != 'self']
            if now != ps:
                return 'making proxies changed the interface: %s.%s declares %s, before %s' % (cls.__name__, n, now, ps)
            # wrong use is not silently forwarded as something else
            del LOG[:]
            try:
                f(*(full + (1,)))
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException:
                pass
            else:
                return '%s.%s accepted an argument too many' % (cls.__name__, n)
        return None


class Declared(Cases):
    """Every method an interface declares exists in the contracts it stands for, with the same parameters."""

    def cases(self, tier):
        P, real = load_fresh()
        for n in sorted(real):
            for m in abstract(real[n]):
                yield n, m

    def check(self, case):
        n, m = case
        P, real = load_fresh()
        mod, c = CLASS_OF[n]
        cls = getattr(importlib.import_module('contracts.' + mod), c)
        f = getattr(cls, m, None)
        if f is None:
            return 'interface', '%s declares %s, which %s does not have' % (n, m, c)
        a = [(p.name, p.default) for p in inspect.signature(getattr(real[n], m)).parameters.values()]
        b = [(p.name, p.default) for p in inspect.signature(f).parameters.values()]
        self.res['transitions'] += 1
        # the contract may offer more optional parameters, and must accept whatever the interface allows
        if [x[0] for x in a] != [x[0] for x in b][:len(a)] or any(d is inspect.Parameter.empty for _, d in b[len(a):]):
            return 'interface', '%s.%s declares %s but %s has %s' % (n, m, a, c, b)
        for (p, d), (_, e) in zip(a, b):
            if d is not inspect.Parameter.empty and d != e:
                return 'interface', '%s.%s: default of %s is %r but %s has %r' % (n, m, p, d, c, e)
        return None


LONG1 = 'a_field_with_a_very_long_name_indeed'
ADDR1, ADDR2 = X.addr(0x7001, True), X.addr(0x7002, True)


class StorageCases(Cases):
    """Breadth first over the field operations, de-duplicated by the model state."""
    parts = {'quick': 4, 'thorough': 8}
    depth = {'quick': 4, 'thorough': 5}
    OPS = [('set', 0, 'num', 5), ('set', 0, 'num', 0), ('set', 0, 'num', -3), ('set', 0, 'number', 9), ('set', 1, 'num', 2 ** 100),
           ('set', 0, 'text', 'ab'), ('set', 0, 'text', ''), ('set', 1, 'text', 'x'), ('set', 0, 'raw', b'r'), ('set', 0, 'raw', b''),
           ('set', 0, 'flag', True), ('set', 0, 'flag', False), ('set', 0, 'who', A('alice')), ('set', 1, 'who', A('TK1')),
           ('remove', 0, 'num'), ('put', 0, 'list', 3), ('put', 0, 'list', 4), ('put', 1, 'list', 5), ('pop', 0, 'list'),
           ('at', 0, 'list', 0, 8), ('key', 0, 'map', 'k', 1), ('key', 0, 'map', 'l', 2), ('key', 1, 'map', 'k', 3),
           ('del', 0, 'map', 'k'), ('again', 0), ('again', 1), ('plain', 0, 'note', 'memo'), ('set', 0, LONG1, 6), ('set', 0, LONG1 + '_too', 8),
           ('set', 0, 'Num', 2)]

    FIELDS = [('num', VarDB, int), ('text', VarDB, str), ('list', ArrayDB, int), ('raw', VarDB, bytes), ('flag', VarDB, bool),
              ('map', DictDB, int), ('who', VarDB, Address), ('number', VarDB, int),
              ('a_field_with_a_very_long_name_indeed', VarDB, int), ('a_field_with_a_very_long_name_indeed_too', VarDB, int),
              ('Num', VarDB, int)]

    def make(self, ch, at):
        S = importlib.import_module('contracts.utility.storage').Storage
        s = S(CH.IconScoreDatabase(at, ch.ctxdb))
        s.add_fields(self.FIELDS[:3])
        s.add_fields(self.FIELDS[3:])
        return s

    @staticmethod
    def initial():
        return {'num': 0, 'text': '', 'list': (), 'raw': None, 'flag': False, 'map': (), 'who': None, 'number': 0,
                LONG1: 0, LONG1 + '_too': 0, 'Num': 0}

    def model(self, state, op):
        """Next model state, or None if the operation must be refused."""
        st = [dict(state[0]), dict(state[1])]
        k, i = op[0], op[1]
        m = st[i]
        if k == 'set':
            m[op[2]] = op[3]
        elif k == 'remove':
            m[op[2]] = {'num': 0}[op[2]]
        elif k == 'put':
            m['list'] = m['list'] + (op[3],)
        elif k == 'pop':
            m['list'] = m['list'][:-1]
        elif k == 'at':
            if op[3] >= len(m['list']):
                return None
            l = list(m['list'])
            l[op[3]] = op[4]
            m['list'] = tuple(l)
        elif k == 'key':
            d = dict(m['map'])
            d[op[3]] = op[4]
            m['map'] = tuple(sorted(d.items()))
        elif k == 'del':
            d = dict(m['map'])
            d.pop(op[3], None)
            m['map'] = tuple(sorted(d.items()))
        elif k == 'again':
            m.pop('note', None)
        elif k == 'plain':
            m['note'] = op[3]
        return st

    def real(self, ch, S, op):
        k, i = op[0], op[1]
        s = S[i]
        if k == 'set':
            setattr(s, op[2], op[3])
        elif k == 'plain':
            s.note = op[3]
        elif k == 'remove':
            s._num.remove() if hasattr(s, '_num') and hasattr(s._num, 'remove') else setattr(s, 'num', 0)
        elif k == 'put':
            s.list.put(op[3])
        elif k == 'pop':
            s.list.pop()
        elif k == 'at':
            s.list[op[3]] = op[4]
        elif k == 'key':
            s.map[op[3]] = op[4]
        elif k == 'del':
            s.map.remove(op[3])
        elif k == 'again':
            S[i] = self.make(ch, (ADDR1, ADDR2)[i])

    def read(self, s):
        out = {}
        for n, db, t in self.FIELDS:
            if db is VarDB:
                out[n] = getattr(s, n)
            elif db is ArrayDB:
                out[n] = tuple(getattr(s, n)[k] for k in range(len(getattr(s, n))))
            else:
                d = getattr(s, n)
                out[n] = tuple((k, d[k]) for k in ('k', 'l') if k in d)
        return out

    def direct(self, ch, at):
        """The database itself, read without the wrapper."""
        db = CH.IconScoreDatabase(at, ch.ctxdb)
        out = {}
        for n, c, t in self.FIELDS:
            x = c(n, db, value_type=t)
            if c is VarDB:
                out[n] = x.get()
            elif c is ArrayDB:
                out[n] = tuple(x[k] for k in range(len(x)))
            else:
                out[n] = tuple((k, x[k]) for k in ('k', 'l') if k in x)
        return out

    def cases(self, tier):
        """All histories, pruned where the model state repeats."""
        start = (self.initial(), self.initial())
        seen = {self.key(start)}
        level = [((), start)]
        yield ()
        for d in range(self.depth[tier]):
            nxt = []
            for h, st in level:
                for op in self.OPS:
                    n = self.model(st, op)
                    yield h + (op,)
                    if n is None:
                        continue
                    k = self.key(n)
                    if k not in seen or op[0] == 'again':
                        if k not in seen:
                            seen.add(k)
                            nxt.append((h + (op,), n))
            level = nxt

    @staticmethod
    def key(st):
        return repr([sorted(x.items(), key=lambda y: y[0]) for x in st])

    def check(self, hist):
        ch = CH.Chain()

        def fn(ctx):
            S = [self.make(ch, ADDR1), self.make(ch, ADDR2)]
            st = [self.initial(), self.initial()]
            for op in hist:
                n = self.model(st, op)
                self.res['transitions'] += 1
                try:
                    self.real(ch, S, op)
                except (KeyboardInterrupt, SystemExit, MemoryError):
                    raise
                except BaseException as e:
                    if n is not None:
                        return 'storage', '%s failed: %r' % (op, e)
                    continue
                if n is None:
                    return 'storage', '%s was accepted' % (op,)
                st = n
            for i, at in ((0, ADDR1), (1, ADDR2)):
                want = {k: v for k, v in st[i].items() if k != 'note'}
                got = self.read(S[i])
                if got != want:
                    return 'storage', 'wrapper %d reads %s, expected %s' % (i, show(got), show(want))
                for k, v in want.items():
                    if type(got[k]) is not type(v):
                        return 'storage', 'field %s reads back as %r instead of %r' % (k, got[k], v)
                got = self.direct(ch, at)
                if got != want:
                    return 'storage', 'the database of %d holds %s, expected %s' % (i, show(got), show(want))
                if 'note' in st[i] and S[i].note != st[i]['note']:
                    return 'storage', 'a plain attribute reads back as %r' % (S[i].note,)
                got = self.read(self.make(ch, at))
                if got != want:
                    return 'storage', 'a new wrapper over database %d reads %s, expected %s' % (i, show(got), show(want))
            self.outcomes.add(self.key(st))
            return None

        r = ch._run(A('owner'), 0, fn)
        if not r.ok:
            return 'storage', 'failed: %s' % r.err
        return r.ret


def tasks(tier):
    yield Proxies('proxies', parts={'quick': 8, 'thorough': 16})
    yield Declared('declared')
    yield StorageCases('storage')
