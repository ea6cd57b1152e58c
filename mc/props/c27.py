"""C27: what deployment fixes stays fixed (token identity, a converter's token and its fee maximum), and deployments with
invalid settings are refused.

Installation grids in lockstep with the reference model; then, on the real code alone, every operation of the market
and configuration alphabets and every entry point the contracts have, by every role: the fixed values are compared with
the deployment parameters themselves.
"""
from ..explore import lab, show, show_op
from ..real import RealScenario
from ..surface import entries, grid
from ..worlds import *
from .c21 import Config as CConfig, Logged

RULE = ('install*: every deployment of the parameter grids (valid and invalid), each followed by restarts and updates, in '
        'lockstep with the model; others: breadth first over the real states, every operation of the alphabet and every '
        'entry point x role x typical arguments executed in every state; after each, the values fixed at deployment are '
        'compared with the parameters of the deployment; transitions = operations executed')

FIXED = ('name', 'symbol', 'decimals', 'getFlexibleTokenVersion', 'getToken', 'getMaxConversionFee')


class Install(Scenario):
    depth = {'quick': 2, 'thorough': 3}
    parts = {'quick': 4, 'thorough': 8}
    static = True
    views = FIXED + ('totalSupply', 'balanceOf', 'getOwner', 'getManager', 'getConnector', 'getConnectorTokenCount',
                     'getConnectorAt', 'getRegistry', 'getConversionFee')
    kind = 'IRC'
    label = 'TK2'

    def setup(self):
        return [deploy('NET', 'NET', 'owner')] + registry() + tok('TK1', 'IRC', 5) + tok('FT1', 'FT', 7, decimals=3)

    def first(self):
        if self.kind in ('IRC', 'FT'):
            for name, sym in (('Name', 'SYM'), ('', ''), ('', 'SYM'), ('Name', ''), ('SYM', 'Name'), ('Same', 'Same'), ('\u00e9\u4e2d "q" ' + 'x' * 70, ' s ')):
                for s in (-1, 0, 1, 12):
                    for d in (-1, 0, 1, 18, 40):
                        yield deploy(self.kind, self.label, 'alice', _name=name, _symbol=sym, _initialSupply=s, _decimals=d)
        elif self.kind == 'CONV':
            for t in ('FT1', 'ZERO'):
                for r in ('REG1', 'ZERO'):
                    for f in (-1, 0, 1, 30000, PPM - 1, PPM, PPM + 1):
                        yield deploy('CONV', 'CONV1', 'alice', _token='@' + t, _registry='@' + r, _maxConversionFee=f,
                                     _connectorToken='@ZERO', _connectorWeight=0)
                        for c in ('TK1', 'FT1', 'CONV1'):
                            for w in (-1, 0, 1, 500000, PPM, PPM + 1):
                                yield deploy('CONV', 'CONV1', 'alice', _token='@' + t, _registry='@' + r, _maxConversionFee=f,
                                             _connectorToken='@' + c, _connectorWeight=w)
        else:
            for who in ('alice', 'owner'):
                yield deploy(self.kind, self.label, who)

    def alphabet(self, M, depth):
        if depth == 0:
            for op in self.first():
                yield op
            return
        yield RESTART
        yield update(self.label, 'alice')
        # the address is taken: nobody replaces what is there by deploying again
        if self.kind == 'CONV':
            for f in (5, PPM):
                yield tx('alice', 'CONV1', 'setConversionFee', _conversionFee=f)


ODD = (('', ''), ('Name', 'SYM'), ('name', 'sym'), ('SYM', 'Name'), ('nAmE', 'sYm'), ('Same', 'Same'), (' lead', 'trail '),
       ('\ttab\n', '\n'), ('\u00df\u0131\u01c5', '\ufb01\u212a'), ('e\u0301', '\u00e9'), ('\u4e2d "q" \\', "'"), ('x' * 70, 'y' * 40), ('0x10', '1e3'),
       ('None', 'null'), ('hx' + '0' * 40, 'cx'), ('', 'ONLY'), ('Only', ''))


class Installed(Scenario):
    """Tokens and converters deployed with unusual settings, then restarted, updated and used."""
    depth = {'quick': 2, 'thorough': 4}
    static = True
    views = FIXED + ('totalSupply', 'balanceOf', 'getOwner', 'getConversionFee')
    watch = ('owner', 'alice')
    odd = ODD
    kind = 'FT'
    fees = (0, 1, PPM)

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry()
        for i, (n, s) in enumerate(self.odd):
            ops.append(deploy(self.kind, 'T%02d' % i, 'owner', _name=n, _symbol=s, _initialSupply=3 + i % 5, _decimals=(0, 1, 18, 21, 7)[i % 5]))
        for i, f in enumerate(self.fees):
            ops.append(deploy('CONV', 'CONV%d' % (i + 1), 'owner', _token='@T%02d' % i, _registry='@REG1', _maxConversionFee=f,
                              _connectorToken='@T05', _connectorWeight=500000))
        return ops

    def alphabet(self, M, depth):
        yield RESTART
        for i in range(len(self.odd)):
            t = 'T%02d' % i
            yield update(t, 'owner')
            if depth:
                yield tx('owner', t, 'transfer', _to='@alice', _value=1)
            if self.kind == 'FT' and depth:
                yield tx('owner', t, 'issue', _to='@alice', _amount=1)
        for i, f in enumerate(self.fees):
            yield update('CONV%d' % (i + 1), 'owner')
            yield tx('owner', 'CONV%d' % (i + 1), 'setConversionFee', _conversionFee=f)


class Fees(CConfig):
    """The fee set to the ends of its range again and again."""
    def alphabet(self, M, depth):
        for f in sorted({0, 1, self.maxfee // 2, self.maxfee - 1, self.maxfee, self.maxfee + 1}):
            for who in ('owner', 'mgr'):
                yield tx(who, 'CONV1', 'setConversionFee', _conversionFee=f)
        yield tx('mgr', 'CONV1', 'acceptManagement')
        yield tx('owner', 'CONV1', 'transferOwnerShip', _newOwner='@alice')
        yield tx('alice', 'CONV1', 'acceptOwnerShip')
        yield tx('alice', 'CONV1', 'setConversionFee', _conversionFee=self.maxfee)
        yield tx('owner', 'FT1', 'transferOwnerShip', _newOwner='@CONV1')
        yield tx('owner', 'CONV1', 'acceptTokenOwnership')
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 900)


class Fixed(RealScenario):
    """No operation by anybody changes what was fixed."""
    base = None
    watch = ('owner',)
    views = FIXED
    static = True
    callers = ('owner', 'mgr', 'alice', 'CONV1', 'FT1', 'NET')
    surface = True
    compare_coins = False

    def setup(self):
        return self.base.setup_ops()

    def expected(self):
        """The deployment parameters, straight from the list of deployments."""
        out = {}
        for op in self.setup_ops():
            if op[0] != 'deploy':
                continue
            _, kind, a, _, p = op
            if kind in ('IRC', 'FT'):
                out[(a, 'name')], out[(a, 'symbol')], out[(a, 'decimals')] = p['_name'], p['_symbol'], p['_decimals']
            if kind == 'CONV':
                out[(a, 'getToken')], out[(a, 'getMaxConversionFee')] = p['_token'], p['_maxConversionFee']
        return out

    def search(self, tier):
        res = self.res
        self.coins = self.base.coins
        w = self.make()
        ch = w.chain
        want = dict(w.obs)
        for (a, m), v in sorted(self.expected().items(), key=str):
            if want.get((a, m)) != v and self.bad('deployment', '%s.%s() = %s, deployed with %s' % (
                    lab(a), m, show(want.get((a, m))), show(v)), ()):
                return
        values = {'Address': [A(x) for x in ('alice', 'TK1', 'FT1', 'ZERO', 'REG1')], 'int': [1, 0, 30000, PPM],
                  'bool': [True, False], 'str': ['Network', path('TK1', 'FT1', 'FT1'), 'x'],
                  'bytes': [convdata(['TK1', 'FT1', 'FT1'], 1), b'x']}
        calls = []
        for a, m, params in entries(ch, False):
            if not lab(a).startswith('ACT'):
                calls += [(a, m, p) for p in grid(params, values, 60)]
        root = ch.save()
        seen = {root.key}
        frontier = [(root, ())]
        n = 0
        for depth in range(self.depth[tier]):
            nxt = []
            for state, hist in frontier:
                n += 1
                ops = [(o, True) for o in self.base.alphabet_ops(None, depth)]
                ops += [(RESTART, True)] + [(update(lab(a), lab(ch.deployers[a])), True) for a in ch.order]
                if self.surface:
                    ops += [(('tx', A(who), a, m, p, 0), False) for a, m, p in calls for who in self.callers]
                for i, (op, keep) in enumerate(ops):
                    if (i + (0 if depth == 0 else n)) % self.nparts != self.part and not (depth == 0 and keep):
                        continue
                    if self.late():
                        return
                    self.tick()
                    ch.load(state)
                    r = w.apply(op)
                    res['transitions'] += 1
                    if op[0] == 'tx' and ch.kv.d is state.kv:
                        continue
                    got = w.observe()
                    for k, v in got.items():
                        if k in want and v != want[k] and self.bad('changed', '%s.%s() = %s after %s, before %s' % (
                                lab(k[0]), k[1], show(v), show_op(op), show(want[k])), hist + (op,)):
                            return
                    if keep:
                        s = ch.save(state)
                        if s.key not in seen:
                            seen.add(s.key)
                            nxt.append((s, hist + (op,)))
            res['depth'] = depth + 1
            frontier = nxt
            if not nxt:
                break
        res['states'] = res['outcomes'] = len(seen)
        for k in ('ok', 'fail'):
            res[k] = w.stats[k]
        res['queries'] = w.stats['q']
        res['samples'] = [[show_op(o) for o in f[1]] for f in frontier[:2]]


def tasks(tier):
    for k, l in (('IRC', 'TK2'), ('FT', 'FT2'), ('CONV', 'CONV1'), ('ICXT', 'ICXT'), ('REG', 'REG2'), ('NET', 'NET2')):
        yield Install('install-' + k.lower(), kind=k, label=l, parts={'quick': 4 if k == 'CONV' else 1, 'thorough': 4})
    yield Installed('installed-ft', parts={'quick': 1, 'thorough': 4})
    yield Installed('installed-irc', kind='IRC', fees=(), parts={'quick': 1, 'thorough': 4})
    v3 = (('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, None))
    d = {'quick': 1, 'thorough': 2}
    yield Fixed('market', base=Logged('b', maxfee=30000), depth=d)
    yield Fixed('market-virtual', base=Logged('b', conns=v3, maxfee=PPM), depth=d)
    yield Fixed('configuration', base=CConfig('b', maxfee=30000), depth=d)
    yield Fixed('configuration-none', base=CConfig('b', maxfee=0, fee=0), depth=d)
    for m in (0, 2, 30000, PPM):
        yield Fixed('fees-%d' % m, base=Fees('b', maxfee=m, fee=0), surface=False, depth={'quick': 3, 'thorough': 5})
    d = {'quick': 2, 'thorough': 3}
    yield Fixed('market-histories', base=Logged('b', maxfee=30000), surface=False, depth=d)
    yield Fixed('configuration-histories', base=CConfig('b', maxfee=30000), surface=False, depth=d)
