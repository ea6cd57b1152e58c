"""C19: the registry resolves exactly what its owner registered."""
from ..worlds import *

NAMES_OK = ('ScoreRegistry', 'Network')
NAMES_BAD = ('Other', '', 'network', 'NETWORK', ' Network', 'Network ', 'ScoreRegistr', 'BancorNetwork', 'Converter', '\x00', 'Score', 'Registry', 'Net', 'work', 'N',
             'scoreregistry', 'SCOREREGISTRY', 'Scoreregistry', 'ScoreRegistry\x00', 'Network,ScoreRegistry', 'NetworkX',
             'XNetwork', 'Ｎetwork', 'Network\n', 'IcxToken', 'FlexibleToken')


NAMES_NEAR = tuple(sorted(
    {f % n for n in NAMES_OK for f in (
        '%s.', '%s.v2', '%s/', '%s/1', '%s:', '%s:1', '%s1', '%s2', '%s_', '%s_v2', '%s-', '%s#', '%s#1', '%s@', '%s@1', '%s?', '%s!', '%s*',
        '%s\t', '%s\r', '%s\r\n', '%s\x0b', '%s\xa0', '%s\u200b', '%s\ufeff', '%s\x7f', '%s,', '%s;', '%s|', '%s%%', '%ss', '%sScore',
        '.%s', '/%s', ':%s', '_%s', '-%s', '#%s', '*%s', '\t%s', '\n%s', '\xa0%s', '\u200b%s', '\ufeff%s', '0x%s', 'The%s', 'Old%s',
        '"%s"', "'%s'", '(%s)', '[%s]', '<%s>', '%s ', ' %s ')}
    | {n[::-1] for n in NAMES_OK} | {n + n for n in NAMES_OK} | {n + ' ' + n for n in NAMES_OK} | {n.swapcase() for n in NAMES_OK}
    | {n[0].lower() + n[1:] for n in NAMES_OK} | {n[:i] + n[i + 1:] for n in NAMES_OK for i in range(len(n))}
    | {n[:i] + n[i:i + 2][::-1] + n[i + 2:] for n in NAMES_OK for i in range(len(n) - 1) if n[i] != n[i + 1]}
    | {n[:i] + s + n[i:] for n in NAMES_OK for i in (3, 5) for s in (' ', '_', '-', '.', '\x00')}))


class Near(Scenario):
    """Names one slip away from the registered ones."""
    watch = ('owner',)
    static = True
    compare_coins = False

    def setup(self):
        return [deploy('REG', 'REG1', 'owner'), deploy('NET', 'NET', 'owner')]

    def alphabet(self, M, depth):
        yield tx('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@NET')
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
        yield tx('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')

    def probes(self, M, depth):
        for n in NAMES_NEAR:
            yield q('REG1', 'getAddress', _scoreName=n)
            yield tx('owner', 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='@NET')
            yield tx('owner', 'REG1', 'unregisterAddress', _scoreName=n)


class Registry(Scenario):
    watch = ('owner', 'alice')
    static = True
    compare_coins = False
    targets = ('NET', 'REG2', 'NOWHERE')
    pre = ()

    def setup(self):
        return [deploy('REG', 'REG1', 'owner'), deploy('REG', 'REG2', 'alice'), deploy('NET', 'NET', 'owner'),
                deploy('ACT', 'ACT1', 'bob', _mode='ok')] + list(self.pre)

    def alphabet(self, M, depth):
        for n in NAMES_OK:
            for t in self.targets + ('REG1',):
                yield tx('owner', 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='@' + t)
            yield tx('owner', 'REG1', 'unregisterAddress', _scoreName=n)
        yield tx('alice', 'REG2', 'registerAddress', _scoreName='Network', _scoreAddress='@ACT1')
        yield tx('alice', 'REG2', 'unregisterAddress', _scoreName='ScoreRegistry')
        yield tx('owner', 'REG1', 'transferOwnerShip', _newOwner='@alice')
        yield tx('alice', 'REG1', 'acceptOwnerShip')
        yield tx('alice', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='@ACT1')
        yield tx('alice', 'REG1', 'unregisterAddress', _scoreName='Network')

    def probes(self, M, depth):
        for who in ('owner', 'alice', 'bob', 'zero'):
            for n in NAMES_BAD:
                yield tx(who, 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='@NET')
                yield tx(who, 'REG1', 'unregisterAddress', _scoreName=n)
            for n in NAMES_OK:
                for t in ('alice', 'zero', 'ZERO'):
                    yield tx(who, 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='@' + t)
                if who != 'owner':
                    yield tx(who, 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='@NET')
                yield tx(who, 'REG1', 'unregisterAddress', _scoreName=n)
        yield tx('bob', 'ACT1', 'run', _prog=prog(('REG1', 'registerAddress', ['s:Network', '@ACT1'], 0, True),
                                                  ('REG1', 'unregisterAddress', ['s:Network'], 0, True)))
        # a contract spoiling the object it got as an answer
        yield tx('bob', 'ACT1', 'run', _prog=prog(('REG1', '~getScoreIds', [], 0, True),
                                                  ('REG1', 'getScoreIds', [], 0, True)))
        yield q('REG2', 'getScoreIds')
        for n in NAMES_OK + NAMES_BAD:
            yield q('REG1', 'getAddress', _scoreName=n)
            yield q('REG2', 'getAddress', _scoreName=n)
        yield deploy('REG', 'REG3', 'alice')


def tasks(tier):
    d = {'quick': 4, 'thorough': 6}
    P = {'quick': 8, 'thorough': 18}
    yield Registry('registry', depth=d, parts=P)
    yield Near('near', depth={'quick': 2, 'thorough': 3}, parts={'quick': 2, 'thorough': 3})
    yield Registry('emptied', depth={'quick': 3, 'thorough': 5}, parts=P, targets=('NET', 'ACT1'),
                   pre=(tx('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry'),))
