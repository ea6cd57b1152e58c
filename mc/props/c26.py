"""C26: contract instances are independent and deterministic.

Independence: the graph of each instance's behaviours alone (the other one never deployed) is computed first; then all
interleavings of both are explored and every step must be the step of the instance's own graph, the other instance's
views staying as they are.  Determinism: all histories up to a length are executed in separate processes with different
hash seeds, orders and previous work, and the digests of receipts and chain states compared.
"""
import hashlib
import os
import pickle
import subprocess
import sys
import traceback

from ..cases import Hang
from ..explore import observations
from ..real import RealScenario, obs_diff, receipt
from ..worlds import *
from .c21 import Logged

RULE = ('independence: product of the behaviour graphs of two instances, all interleavings; states = distinct (own '
        'history state of 1, own history state of 2, chain state), transitions = operations executed on the real '
        'contracts; determinism: every history of the stated length executed in several processes (hash seed x order x '
        'previous work), digests of every receipt, all views and the whole storage compared; traces = digests compared')


class Pair(RealScenario):
    """Two instances of one kind: labels one/two, `common` deploys what both need, `inst(i)` an instance."""
    static = True
    max_connectors = 2
    coins = {'owner': 10 ** 6, 'alice': 10 ** 6}
    order = (1, 2)
    parts = 1
    kind = None
    depth = {'quick': 2, 'thorough': 3}

    def common(self):
        return []

    def inst(self, i):
        return []

    def group(self, i):
        return ()

    def ops(self, i):
        return ()

    def shared(self):
        """Contracts that appear as holders in the views."""
        return [op[2] for op in self.common() if op[0] == 'deploy']

    def obs_of(self, w, i):
        g = [A(x) for x in self.group(i)]
        world = {a: w.kinds[a] for a in self.shared() + g if a in w.kinds}
        keep, self.only = self.only, self.group(i)
        lst = observations(world, self)
        self.only = keep
        return lst, g

    def view(self, w, i):
        lst, g = self.lists[i]
        out = {}
        for a, m, p in lst:
            ok, v = w.chain.query(a, m, p)
            out[(a, m) + tuple(p.values())] = v if ok else 'refused'
        for a in g:
            out[(a, 'icx')] = w.chain.icx_of(a)
        w.stats['q'] += len(lst)
        return out

    def solo(self, i, bound):
        """{sid: (views, depth)}, {(sid, op index): (receipt, sid2)} of the instance alone."""
        w = self.make(self.common() + self.inst(i))
        self.lists = getattr(self, 'lists', {})
        self.lists[i] = self.obs_of(w, i)
        ch = w.chain
        ops = list(self.ops(i))
        root = ch.save()
        nodes = {0: (self.view(w, i), 0)}
        ids = {root.key: 0}
        trans = {}
        frontier = [(root, 0)]
        for d in range(bound):
            nxt = []
            for st, sid in frontier:
                for n, op in enumerate(ops):
                    self.tick()
                    ch.load(st)
                    r = w.apply(op)
                    v = self.view(w, i)
                    s2 = ch.save(st)
                    self.res['transitions'] += 1
                    t = ids.get(s2.key)
                    if t is None:
                        t = ids[s2.key] = len(ids)
                        nodes[t] = (v, d + 1)
                        nxt.append((s2, t))
                    trans[(sid, n)] = (receipt(r), t)
            frontier = nxt
        self.stat(w)
        return nodes, trans

    def apart(self, i, bound):
        """solo() in a process of its own, so that nothing the other instance left in the process is there."""
        rd, wr = os.pipe()
        before = {k: v for k, v in self.res.items() if isinstance(v, int)}
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(rd)
                try:
                    out = (self.solo(i, bound), self.lists[i], None)
                except Hang as h:
                    out = (None, None, str(h))
                diff = {k: self.res[k] - n for k, n in before.items() if not isinstance(n, bool)}
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(out + (diff, self.refused), f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f:
            b = f.read()
        code = os.waitpid(pid, 0)[1]
        if code or not b:
            raise RuntimeError('the process exploring instance %d alone ended with status %d' % (i, code))
        g, lst, hang, diff, self.refused = pickle.loads(b)
        if hang:
            raise Hang(hang)
        for k, n in diff.items():
            self.res[k] += n
        self.lists = getattr(self, 'lists', {})
        self.lists[i] = lst
        return g

    def stat(self, w):
        for k in ('ok', 'fail'):
            self.res[k] += w.stats[k]
        self.res['queries'] += w.stats['q']

    def search(self, tier):
        res = self.res
        bound = self.depth[tier]
        G = {i: self.apart(i, bound) for i in (1, 2)}
        ops = {i: list(self.ops(i)) for i in (1, 2)}
        hist0 = self.common()
        for i in self.order:
            hist0 = hist0 + self.inst(i)
        w = self.make(hist0)
        ch = w.chain
        root = ch.save()
        for i in (1, 2):
            if self.view(w, i) != G[i][0][0][0]:
                self.bad('independence', 'instance %d starts differently when the other one exists: %s' % (
                    i, obs_diff(self.view(w, i), G[i][0][0][0])), hist0)
                return
        seen = {(0, 0, root.key)}
        frontier = [(root, 0, 0, ())]
        last = frontier
        while frontier:
            nxt = []
            for st, a, b, hist in frontier:
                if self.late():
                    return
                for i in (1, 2):
                    sid = a if i == 1 else b
                    if G[i][0][sid][1] >= bound:
                        continue
                    oth = b if i == 1 else a
                    for n, op in enumerate(ops[i]):
                        self.tick()
                        ch.load(st)
                        r = receipt(w.apply(op))
                        res['transitions'] += 1
                        want, t = G[i][1][(sid, n)]
                        h = hist0 + list(hist) + [op]
                        if r != want:
                            self.bad('independence', 'the operation gave %s, without the other instance %s' % (r, want), h)
                            return
                        v = self.view(w, i)
                        if v != G[i][0][t][0]:
                            self.bad('independence', 'the state differs from that without the other instance: %s' %
                                     obs_diff(v, G[i][0][t][0]), h)
                            return
                        v = self.view(w, 3 - i)
                        if v != G[3 - i][0][oth][0]:
                            self.bad('independence', 'the operation changed the other instance: %s' %
                                     obs_diff(v, G[3 - i][0][oth][0]), h)
                            return
                        s2 = ch.save(st)
                        k = (t, b, s2.key) if i == 1 else (a, t, s2.key)
                        if k not in seen:
                            seen.add(k)
                            nxt.append((s2, k[0], k[1], hist + (op,)))
            last, frontier = frontier, nxt
        res['depth'] = res['bound'] = bound
        # whole interleavings on a fresh chain without snapshots
        for st, a, b, hist in last[::max(1, len(last) // 5)][:5]:
            w2 = self.make(hist0)
            self.tick()
            for op in hist:
                w2.apply(op)
            res['replayed'] += 1
            for i, sid in ((1, a), (2, b)):
                if self.view(w2, i) != G[i][0][sid][0]:
                    self.bad('replay', 'interleaving repeated from the start: instance %d: %s' % (
                        i, obs_diff(self.view(w2, i), G[i][0][sid][0])), hist0 + list(hist))
                    return
        self.stat(w)
        res['states'] = len(seen)
        res['outcomes'] = len({x[0] for x in G[1][1].values()})
        res['samples'] = [[show_op(o) for o in f[3]] for f in last[:2]]


from ..explore import show_op  # noqa: E402


def owned(c):
    yield tx('owner', c, 'transferOwnerShip', _newOwner='@bob')
    yield tx('bob', c, 'acceptOwnerShip')


class Flexible(Pair):
    def inst(self, i):
        return tok('FT%d' % i, 'FT', 100 * i, decimals=i) + give('FT%d' % i, 'owner', ('alice', 30))

    def group(self, i):
        return ('FT%d' % i,)

    def common(self):
        return [deploy('ACT', 'ACT1', 'bob', _mode='ok')] + tok('TK1', 'IRC', 100)

    def ops(self, i):
        t = 'FT%d' % i
        yield tx('owner', t, 'transfer', _to='@alice', _value=5)
        yield tx('alice', t, 'transfer', _to='@ACT1', _value=6, _data=b'x')
        yield tx('owner', t, 'issue', _to='@alice', _amount=3 + i)
        yield tx('owner', t, 'destroy', _from='@alice', _amount=4)
        yield tx('alice', t, 'destroy', _from='@alice', _amount=2)
        yield tx('owner', t, 'disableTransfer', _disable=True)
        yield tx('owner', t, 'disableTransfer', _disable=False)
        yield tx('owner', 'TK1', 'transfer', _to='@' + t, _value=2)
        yield tx('owner', t, 'withdrawTokens', _token='@TK1', _to='@bob', _amount=1)
        for op in owned(t):
            yield op


class Plain(Pair):
    depth = {'quick': 3, 'thorough': 4}

    def inst(self, i):
        return tok('TK%d' % i, 'IRC', 100 * i, decimals=i)

    def group(self, i):
        return ('TK%d' % i,)

    def common(self):
        return [deploy('ACT', 'ACT1', 'bob', _mode='ok')]

    def ops(self, i):
        t = 'TK%d' % i
        yield tx('owner', t, 'transfer', _to='@alice', _value=5)
        yield tx('owner', t, 'transfer', _to='@ACT1', _value=5)
        yield tx('alice', t, 'transfer', _to='@bob', _value=2)
        yield tx('bob', t, 'transfer', _to='@alice', _value=1)


class Coins(Pair):
    def inst(self, i):
        l = 'ICXT' if i == 1 else 'ICXT2'
        return tok(l, 'ICXT', 0) + [coin('owner', l, 40 * i)]

    def group(self, i):
        return ('ICXT',) if i == 1 else ('ICXT2',)

    def common(self):
        return [deploy('ACT', 'ACT1', 'bob', _mode='ok')]

    def ops(self, i):
        t = self.group(i)[0]
        yield coin('alice', t, 11)
        yield tx('owner', t, 'deposit', 3)
        yield tx('owner', t, 'withdraw', _amount=5)
        yield tx('alice', t, 'withdrawTo', _amount=4, _to='@ACT1')
        yield tx('alice', t, 'withdrawTo', _amount=4, _to='@bob')
        yield tx('owner', t, 'transfer', _to='@alice', _value=7)
        for op in owned(t):
            yield op


class Registries(Pair):
    depth = {'quick': 2, 'thorough': 3}

    def inst(self, i):
        return [deploy('REG', 'REG%d' % i, 'owner')]

    def group(self, i):
        return ('REG%d' % i,)

    def common(self):
        return [deploy('NET', 'NET', 'owner'), deploy('NET', 'NET2', 'owner'), deploy('REG', 'REG3', 'owner'),
                deploy('ACT', 'ACT1', 'bob', _mode='ok')]

    def ops(self, i):
        r = 'REG%d' % i
        for n in ('ScoreRegistry', 'Network'):
            for t in ('NET', 'NET2', 'REG3'):
                yield tx('owner', r, 'registerAddress', _scoreName=n, _scoreAddress='@' + t)
            yield tx('owner', r, 'unregisterAddress', _scoreName=n)
        # a contract spoiling the list it got as an answer
        yield tx('bob', 'ACT1', 'run', _prog=prog((r, '~getScoreIds', [], 0, True)))
        for op in owned(r):
            yield op


class Networks(Pair):
    max_connectors = 3
    def common(self):
        ops = tok('TK1', 'IRC', 10 ** 6) + tok('TK2', 'IRC', 10 ** 6) + tok('ICXT', 'ICXT', 0) + [coin('owner', 'ICXT', 9000)]
        ops += tok('ICXT2', 'ICXT', 0) + [coin('owner', 'ICXT2', 9000)]
        return ops + give('TK1', 'owner', ('alice', 9000))

    def inst(self, i):
        """A network with its own registry and converter."""
        n, r, f, c = 'NET' if i == 1 else 'NET2', 'REG%d' % i, 'FT%d' % i, 'CONV%d' % i
        return ([deploy('NET', n, 'owner')] + registry(r, n) + tok(f, 'FT', 5000) + give(f, 'owner', ('alice', 900))
                + [tx('owner', n, 'registerIcxToken', _icxToken='@ICXT', _register=True)]
                + converter(c, f, r, (('TK1', 400000, 2000, None), ('ICXT', 300000, 1000, None), ('ICXT2', 200000, 900, None)),
                            fee=1000 * i))

    def group(self, i):
        return ('NET' if i == 1 else 'NET2', 'REG%d' % i, 'FT%d' % i, 'CONV%d' % i)

    def ops(self, i):
        n, f, c = 'NET' if i == 1 else 'NET2', 'FT%d' % i, 'CONV%d' % i
        yield convert('alice', ('TK1', f, f), 50, net=n)
        yield convert('alice', (f, f, 'ICXT'), 20, net=n)
        yield convert_coin('alice', ('ICXT', f, f), 30, net=n)
        yield tx('owner', n, 'registerIcxToken', _icxToken='@ICXT', _register=False)
        if self.tier == 'quick' and self.order == (1, 2):
            return
        # an ICX token that is unknown to both at first
        yield tx('owner', n, 'registerIcxToken', _icxToken='@ICXT2', _register=True)
        yield convert('alice', ('TK1', f, 'ICXT2'), 60, target='bob', net=n)
        yield convert_coin('alice', ('ICXT2', f, f), 30, net=n)
        yield tx('owner', n, 'registerIcxToken', _icxToken='@TK2', _register=True)
        yield tx('owner', 'TK2', 'transfer', _to='@' + n, _value=3)
        yield tx('owner', n, 'withdrawTokens', _token='@TK2', _to='@bob', _amount=2)
        for op in owned(n):
            yield op


class Converters(Pair):
    max_connectors = 3

    def common(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry('REG1', 'NET') + registry('REG2', 'NET')
        ops += tok('TK1', 'IRC', 10 ** 6) + tok('TK2', 'IRC', 10 ** 6) + tok('TK3', 'IRC', 10 ** 6)
        return ops + give('TK1', 'owner', ('alice', 9000)) + give('TK2', 'owner', ('alice', 9000))

    def inst(self, i):
        f = 'FT%d' % i
        return tok(f, 'FT', 5000 + i) + give(f, 'owner', ('alice', 900)) + converter(
            'CONV%d' % i, f, 'REG1', (('TK1', 400000, 2000, None), ('TK2', 300000, 1000, 3000)), maxfee=40000 // (i * i),
            fee=1000 * i)

    def group(self, i):
        return ('FT%d' % i, 'CONV%d' % i)

    def ops(self, i):
        f, c = 'FT%d' % i, 'CONV%d' % i
        yield convert('alice', ('TK1', f, f), 50)
        yield convert('alice', (f, f, 'TK2'), 20)
        yield convert('alice', ('TK2', f, 'TK1'), 70)
        yield tx('owner', c, 'setConversionFee', _conversionFee=40000 // (i * i))
        yield tx('owner', c, 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
        yield tx('owner', c, 'updateConnector', _connectorToken='@TK1', _weight=100000, _enableVirtualBalance=True,
                 _virtualBalance=70 * i)
        yield tx('owner', c, 'transferManagement', _newManager='@bob')
        if self.tier == 'quick' and self.order == (1, 2):
            return
        yield tx('bob', c, 'acceptManagement')
        yield tx('owner', c, 'disableConversions', _disable=True)
        yield tx('owner', c, 'disableRegistryUpdate', _disable=True)
        yield tx('owner', c, 'transferTokenOwnership', _newOwner='@owner')


class Setup(Pair):
    """Converters under construction: connectors, token ownership, registry."""
    max_connectors = 3
    common = Converters.common

    def inst(self, i):
        f = 'FT%d' % i
        return tok(f, 'FT', 500) + converter('CONV%d' % i, f, 'REG1', (('TK1', 400000, 50, None),), activate=False)

    def group(self, i):
        return ('FT%d' % i, 'CONV%d' % i)

    def ops(self, i):
        f, c = 'FT%d' % i, 'CONV%d' % i
        yield tx('owner', c, 'addConnector', _token='@TK2', _weight=300000 + i, _enableVirtualBalance=False)
        yield tx('owner', c, 'addConnector', _token='@TK3', _weight=300000 + i, _enableVirtualBalance=True)
        yield tx('owner', f, 'transferOwnerShip', _newOwner='@' + c)
        yield tx('owner', c, 'acceptTokenOwnership')
        yield tx('owner', c, 'withdrawTokens', _token='@TK1', _to='@bob', _amount=1)
        yield tx('owner', c, 'updateConnector', _connectorToken='@TK1', _weight=100000, _enableVirtualBalance=True,
                 _virtualBalance=70 * i)
        yield tx('owner', c, 'disableTokenTransfers', _disable=True)
        for op in owned(c):
            yield op


class Determinism(RealScenario):
    """The same histories in separate processes."""
    parts = {'quick': 8, 'thorough': 16}
    depth = {'quick': 2, 'thorough': 2}
    which = 'market'

    def search(self, tier):
        res = self.res
        n = {'market': 2, 'config': 2, 'formula': 1}[self.which]
        runs = [('0', 'forward', 'none'), ('1', 'reverse', 'none'), ('random', 'forward', 'warm')]
        if self.which == 'config':
            runs += [('2', 'forward', 'none'), ('3', 'forward', 'none')]
        if tier == 'thorough':
            runs += [('4242', 'reverse', 'warm'), ('random', 'reverse', 'warm')]
        procs = []
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        for seed, order, warm in runs:
            env = dict(os.environ, PYTHONHASHSEED=seed)
            procs.append(subprocess.Popen(
                [sys.executable, '-B', '-m', 'mc.digest', self.which, str(self.part), str(self.nparts), order, warm, tier],
                cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
        outs = []
        for p in procs:
            o, e = p.communicate(timeout=3000)
            if p.returncode:
                raise RuntimeError('digest process failed: ' + e.decode()[-600:])
            outs.append(dict(l.split(' ', 1) for l in o.decode().splitlines()))
        first = outs[0]
        for k in sorted(first):
            res['states'] += 1
            a = first[k].split(' ')
            res['transitions'] += int(a[1]) * len(outs)
            res['replayed'] += len(outs) - 1
            for (seed, order, warm), o in zip(runs[1:], outs[1:]):
                b = o.get(k, 'missing 0').split(' ')
                if a[0] != b[0]:
                    if self.bad('determinism', 'history class %s: other results in a process with hash seed %s, %s order, '
                                'previous work: %s' % (k, seed, order, warm), ()):
                        return
        res['depth'] = res['bound'] = n
        res['outcomes'] = len(set(first.values()))
        res['samples'] = [[k, v] for k, v in list(first.items())[:1]]


def tasks(tier):
    for o in ((1, 2), (2, 1)):
        s = '-%d%d' % o
        d = {'quick': 1, 'thorough': 3} if o == (2, 1) else {'quick': 2, 'thorough': 3}
        yield Converters('converters' + s, order=o, depth=d)
        yield Setup('converter-setup' + s, order=o, depth=d)
        yield Networks('networks' + s, order=o, depth=d)
        yield Flexible('flexible' + s, order=o, depth=d)
        yield Coins('icx' + s, order=o, depth=d)
        yield Registries('registries' + s, order=o, depth=d)
        yield Plain('plain' + s, order=o)
    yield Determinism('processes-market', which='market')
    yield Determinism('processes-config', which='config')
    yield Determinism('processes-formula', which='formula', parts={'quick': 2, 'thorough': 4})
