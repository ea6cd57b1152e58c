"""C28: queries never change anything and always give the same answer.

Self-comparison of the real code: in every reached state every query the contracts offer is asked twice from outside
and once by a contract inside a transaction, the answers compared; afterwards every view must be as before and every
operation must do exactly what it does without the queries.
"""
from ..real import obs_diff, receipt
from ..surface import entries, grid
from ..worlds import *
from ..explore import lab, show, show_op
from .c12 import Compound
from .c21 import Config as CConfig, Logged
from .c24 import Control, Phase, Restarts, Roles, Settings, Tokens, Trading

RULE = ('breadth first over states; in every state all queries (every read-only method x every combination of typical '
        'arguments) are asked twice from outside and once from a contract in a transaction: equal answers, all views '
        'unchanged; every operation of the alphabet is executed without queries before it, after all queries from outside '
        'and after all queries in a transaction, comparing receipt and all views; transitions = operations executed')


class Queries(Restarts):
    modes = ('live', 'queried', 'called')
    what = 'if everything is %s before'
    asker = 'ACT1'
    more_tokens = ()
    paths = (('TK1', 'FT1', 'FT1'), ('FT1', 'FT1', 'TK1'), ('TK1', 'FT1', 'TK2'), ('ICXT', 'FT1', 'FT1'), ('FT1', 'FT1', 'ICXT'))

    def values(self, w):
        world = [a for a in w.chain.order]
        here = set(world)
        return {'Address': [A(x) for x in ('alice', 'owner', 'TK1', 'FT1', 'TK2', 'CONV1', 'ICXT', 'ACT1', 'NET', 'NOWHERE') + self.more_tokens
                            if A(x) in here or x in ('alice', 'owner', 'NOWHERE')],
                'int': [1, 0, 900, 2, -1], 'bool': [True, False],
                'str': ['Network', 'ScoreRegistry', 'x'], 'bytes': [b'x']}

    def questions(self, w):
        v = self.values(w)
        for a, m, params in entries(w.chain, True):
            if m == 'getExpectedReturnByPath':
                for p in self.paths:
                    for n in (1, 900):
                        yield a, m, {'_path': path(*p), '_amount': n}
                continue
            for p in grid(params, v, 200):
                yield a, m, p

    def batch(self, w):
        """One transaction of a contract that asks everything, spoiling the answers it is handed."""
        if not hasattr(self, '_batch'):
            steps = [(lab(a), '~' + m, ['@' + lab(x) if type(x).__name__ == 'Address' else x for x in p.values()], 0, True)
                     for a, m, p in self.questions(w)]
            self._batch = tx('bob', self.asker, 'run', _prog=prog(*steps))
        return self._batch

    def answers(self, w):
        out = []
        for a, m, p in self.list(w):
            ok, v = w.chain.query(a, m, p)
            out.append((ok, show(v) if ok else None))
        return out

    def asked_after(self, w):
        """All quotes of the network and a selection of everything else."""
        qs = self.list(w)
        out = []
        for i, (a, m, p) in enumerate(qs):
            if m == 'getExpectedReturnByPath' or i % 5 == 0:
                ok, v = w.chain.query(a, m, p)
                out.append((lab(a), m, [show(x) for x in p.values()], show(v) if ok else None))
        return out

    def list(self, w):
        if not hasattr(self, '_qs'):
            self._qs = list(self.questions(w))
        return self._qs

    def enter(self, w, mode):
        if mode == 'queried':
            self.answers(w)
        elif mode == 'called':
            w.apply(self.batch(w))

    def between(self, w):
        self.answers(w)
        w.apply(self.batch(w))

    def alone(self, w):
        return [self.batch(w)]

    def setup(self):
        return Restarts.setup(self) if self.base else []

    def visit(self, w, state, obs, hist):
        """The answers themselves."""
        ch = w.chain
        ch.load(state)
        one = self.answers(w)
        two = self.answers(w)
        if ch.kv.d is not state.kv:
            return 'asking changed the stored state'
        r = w.apply(self.batch(w))
        inside = [e.data[0] if e.data else e.indexed[1] for e in r.events if e.indexed[0].startswith('Saw(')]
        three = self.answers(w)
        for i, (a, m, p) in enumerate(self.list(w)):
            name = '%s.%s(%s)' % (lab(a), m, ', '.join(show(x) for x in p.values()))
            if one[i] != two[i] or one[i] != three[i]:
                return '%s answered %s, then %s, later %s' % (name, one[i][1], two[i][1], three[i][1])
            if r.ok:
                ok, v = ch.query(a, m, p)
                want = 'ok:' + str(v) if ok else 'fail'
                if inside[i] != want:
                    return '%s answers %s to a contract in a transaction, otherwise %s' % (name, inside[i], want)
        if not r.ok:
            return 'a contract asking everything failed: %s' % r.err
        self.res['queries'] += 3 * len(one)
        return None


class QTrading(Queries, Trading):
    pass


class QRoles(Queries, Roles):
    def alphabet(self, M, depth):
        for op in Roles.alphabet(self, M, depth):
            yield op
        for a in ('NET', 'alice'):
            yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@' + a)

    def setup(self):
        return Roles.setup(self) + [deploy('ACT', 'ACT1', 'bob', _mode='ok')]


class QControl(Queries, Control):
    def setup(self):
        return Control.setup(self) + [deploy('ACT', 'ACT1', 'bob', _mode='ok')]


class QSettings(Queries, Settings):
    def setup(self):
        return Settings.setup(self) + [deploy('ACT', 'ACT1', 'bob', _mode='ok')]


class QConnectors(QSettings):
    """Connector settings around zero."""
    def alphabet(self, M, depth):
        for t in ('TK1', 'TK2'):
            for e, v in ((True, 0), (True, 700), (False, 0), (False, 5)):
                yield tx('owner', 'CONV1', 'updateConnector', _connectorToken='@' + t, _weight=self.weight,
                         _enableVirtualBalance=e, _virtualBalance=v)
        yield tx('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='@TK1', _disable=True)
        yield convert('alice', ('TK1', 'FT1', 'FT1'), 30)


class QPhase(Queries, Phase):
    more_tokens = ('TK3',)

    def setup(self):
        return Phase.setup(self)


class QTokens(Queries, Tokens):
    def setup(self):
        return Tokens.setup(self)


def tasks(tier):
    v3 = (('TK1', 500000, 10000, 25000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000, None))
    d = {'quick': 1, 'thorough': 2}
    yield Queries('market', base=Logged('b'), depth=d)
    yield Queries('market-virtual', base=Logged('b', conns=v3), depth=d)
    yield Queries('configuration', base=CConfig('b'), depth=d)
    yield QTrading('trading', base=Logged('b', conns=v3), depth={'quick': 2, 'thorough': 4})
    yield QRoles('roles', depth={'quick': 2, 'thorough': 3})
    yield QControl('control', depth={'quick': 2, 'thorough': 4})
    yield QSettings('settings', depth=d)
    yield QConnectors('connectors', weight=400000, depth={'quick': 2, 'thorough': 4})
    yield QPhase('phase', depth={'quick': 2, 'thorough': 4})
    yield QTokens('tokens', depth={'quick': 2, 'thorough': 4})
