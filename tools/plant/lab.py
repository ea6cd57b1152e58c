"""A small in-process chain for the demonstrations: named accounts and contracts over the contracts in the cwd."""
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ['MC_REPO'] = os.getcwd()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from chain import Address, Chain, ZERO_SCORE, addr, Faults  # noqa: E402,F401
import actors  # noqa: E402
from contracts.converter.converter import Converter  # noqa: E402
from contracts.flexible_token.flexible_token import FlexibleToken  # noqa: E402
from contracts.icx_token.icx_token import IcxToken  # noqa: E402
from contracts.irc_token.irc_token import IRCToken  # noqa: E402
from contracts.network.network import Network  # noqa: E402
from contracts.score_registry.score_registry import ScoreRegistry  # noqa: E402

ACCOUNTS = ('owner', 'alice', 'bob', 'mgr', 'eve')
SCORES = ('TK1', 'TK2', 'TK3', 'FT1', 'FT2', 'ICXT', 'ICXT2', 'CONV1', 'CONV2', 'NET', 'NET2', 'REG1', 'REG2', 'REG3',
          'ACT1', 'ACT2', 'ACT3') + tuple('T%02d' % i for i in range(12)) + tuple('F%02d' % i for i in range(12)) \
    + tuple('C%02d' % i for i in range(12))
N = {n: addr((i + 17) * 0x0101010101, False) for i, n in enumerate(ACCOUNTS)}
N.update({n: addr((i + 65) * 0x010101010101, True) for i, n in enumerate(SCORES)})
N['ZERO'] = ZERO_SCORE
KIND = {'irc': IRCToken, 'ft': FlexibleToken, 'icxt': IcxToken, 'conv': Converter, 'net': Network, 'reg': ScoreRegistry,
        'act': actors.Actor, 'mute': actors.Mute, 'evil': actors.Evil}


def P(params):
    return {k: N[v] if isinstance(v, str) and v in N else v for k, v in params.items()}


def fail(msg):
    print('BROKEN: ' + msg)
    sys.exit(1)


def expect(cond, msg):
    if not cond:
        fail(msg)


def path(*labels):
    return ','.join(str(N[x]) for x in labels)


def request(labels, minr=1, target=None):
    d = {'path': path(*labels), 'minReturn': minr}
    if target:
        d['for'] = str(N[target])
    return json.dumps(d).encode()


def prog(*steps):
    """Program of an actor: (to, method, args[, value[, catch]])."""
    def e(v):
        if isinstance(v, bytes):
            return 'b:' + v.hex()
        if isinstance(v, str):
            return '@' + str(N[v]) if v in N else 's:' + v
        return v
    return json.dumps([['@' + str(N[s[0]]), s[1], [e(x) for x in s[2]], s[3] if len(s) > 3 else 0,
                        s[4] if len(s) > 4 else False] for s in steps])


class Lab(Chain):
    def put(self, kind, name, by='owner', **p):
        r = self.deploy(KIND[kind], N[name], N[by], P(p))
        return r

    def must(self, r, what=''):
        expect(r.ok, 'refused: %s %s' % (what, r.err))
        return r

    def add(self, kind, name, by='owner', **p):
        return self.must(self.put(kind, name, by, **p), name)

    def send(self, who, to, method, value=0, **p):
        return self.tx(N[who], N[to], method, P(p), value)

    def ok(self, who, to, method, value=0, **p):
        return self.must(self.send(who, to, method, value, **p), '%s -> %s.%s' % (who, to, method))

    def no(self, who, to, method, value=0, **p):
        r = self.send(who, to, method, value, **p)
        expect(not r.ok, 'accepted: %s -> %s.%s %s' % (who, to, method, p))
        return r

    def coin(self, who, n):
        self.set_icx(N[who], n)

    def get(self, to, method, **p):
        ok, v = self.query(N[to], method, P(p))
        expect(ok, 'query refused: %s.%s' % (to, method))
        return v

    def refuses(self, to, method, **p):
        return not self.query(N[to], method, P(p))[0]

    def bal(self, token, who):
        return self.get(token, 'balanceOf', _owner=who)

    def icxof(self, who):
        return self.icx_of(N[who])

    def token(self, name, kind='irc', supply=10 ** 9):
        if kind == 'icxt':
            self.add('icxt', name)
        else:
            self.add(kind, name, _name=name, _symbol=name, _initialSupply=supply, _decimals=0)

    def give(self, token, *pairs, by='owner'):
        for who, n in pairs:
            self.ok(by, token, 'transfer', _to=who, _value=n)

    def converter(self, name, ft, conns, reg='REG1', fee=0, maxfee=1000000, activate=True):
        c = conns[0]
        self.add('conv', name, _token=ft, _registry=reg, _maxConversionFee=maxfee, _connectorToken=c[0],
                 _connectorWeight=c[1])
        for c in conns[1:]:
            self.ok('owner', name, 'addConnector', _token=c[0], _weight=c[1], _enableVirtualBalance=False)
        for c in conns:
            self.ok('owner', c[0], 'transfer', _to=name, _value=c[2])
        for c in conns:
            if len(c) > 3 and c[3] is not None:
                self.ok('owner', name, 'updateConnector', _connectorToken=c[0], _weight=c[1],
                        _enableVirtualBalance=True, _virtualBalance=c[3])
        if fee:
            self.ok('owner', name, 'setConversionFee', _conversionFee=fee)
        if activate:
            self.ok('owner', ft, 'transferOwnerShip', _newOwner=name)
            self.ok('owner', name, 'acceptTokenOwnership')

    def convert(self, who, labels, n, minr=1, target=None):
        return self.send(who, labels[0], 'transfer', _to='NET', _value=n, _data=request(labels, minr, target))

    def events(self, r, name):
        return [e for e in r.events if e.indexed[0].startswith(name + '(')]


def market(fee=0, maxfee=1000000, conns=(('TK1', 500000, 10000), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)),
           activate=True, conns2=(), supply=20000, hold=5000):
    """REG1, NET, TK1, TK2, ICXT, FT1, CONV1 (and FT2, CONV2); alice holds some of everything."""
    L = Lab()
    L.coin('owner', 10 ** 9)
    L.coin('alice', 10 ** 5)
    L.add('net', 'NET')
    L.add('reg', 'REG1')
    L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
    L.token('TK1')
    L.token('TK2')
    L.token('ICXT', 'icxt')
    L.ok('owner', 'ICXT', 'deposit', value=10 ** 8)
    L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=True)
    L.token('FT1', 'ft', supply)
    L.give('FT1', ('alice', min(hold, supply // 4)))
    L.converter('CONV1', 'FT1', conns, fee=fee, maxfee=maxfee, activate=activate)
    for t in ('TK1', 'TK2', 'ICXT'):
        L.give(t, ('alice', hold))
    if conns2:
        L.token('FT2', 'ft', 30000)
        L.give('FT2', ('alice', hold))
        L.converter('CONV2', 'FT2', conns2, fee=fee, maxfee=maxfee)
    return L
