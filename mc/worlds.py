"""Deployments shared by the scenarios."""
from .explore import *  # noqa: F401,F403
from .explore import A, NAMES, Scenario, coin, convdata, deploy, path, prog, q, sweep, tx, update, RESTART, Raw, Exact, BIG

PPM = 1000000


def tok(label, kind, supply, owner='owner', decimals=0, name=None):
    if kind == 'ICXT':
        return [deploy('ICXT', label, owner)]
    return [deploy(kind, label, owner, _name=name or ' tokeN %s\u00df ' % label, _symbol=' t%s. ' % label.lower(), _initialSupply=supply,
                   _decimals=decimals)]


def give(token, frm, *pairs):
    return [tx(frm, token, 'transfer', _to='@' + w, _value=n) for w, n in pairs if n]


def registry(label='REG1', net='NET', owner='owner', deploy_it=True):
    ops = [deploy('REG', label, owner)] if deploy_it else []
    if net:
        ops.append(tx(owner, label, 'registerAddress', _scoreName='Network', _scoreAddress='@' + net))
    return ops


def converter(label, ft, reg, conns, maxfee=PPM, fee=0, owner='owner', activate=True, funder=None):
    """conns: (token, weight, amount funded, virtual balance or None)."""
    funder = funder or owner
    c0 = conns[0] if conns else None
    ops = [deploy('CONV', label, owner, _token='@' + ft, _registry='@' + reg, _maxConversionFee=maxfee,
                  _connectorToken='@' + c0[0] if c0 else '@ZERO', _connectorWeight=c0[1] if c0 else 0)]
    for c in conns[1:]:
        ops.append(tx(owner, label, 'addConnector', _token='@' + c[0], _weight=c[1], _enableVirtualBalance=False))
    for c in conns:
        ops += give(c[0], funder, (label, c[2]))
    for c in conns:
        if c[3] is not None:
            ops.append(tx(owner, label, 'updateConnector', _connectorToken='@' + c[0], _weight=c[1],
                          _enableVirtualBalance=True, _virtualBalance=c[3]))
    if fee:
        ops.append(tx(owner, label, 'setConversionFee', _conversionFee=fee))
    if activate:
        ops += [tx(owner, ft, 'transferOwnerShip', _newOwner='@' + label), tx(owner, label, 'acceptTokenOwnership')]
    return ops


def icx_deposit(who, token, n):
    return [coin(who, token, n)] if n else []


class Market(Scenario):
    """REG1, NET, TK1, TK2, ICXT, FT1; CONV1 over (TK1, TK2, ICXT) for FT1; optionally CONV2 over (FT1, TK1) for FT2."""
    watch = ('owner', 'alice', 'bob')
    coins = {'owner': 10 ** 9, 'alice': 100000, 'bob': 0}
    conns = (('TK1', 500000, 10000, None), ('TK2', 200000, 4000, None), ('ICXT', 300000, 6000, None))
    conns2 = ()
    conns3 = ()
    supply = 20000
    supply2 = 30000
    supply3 = 40000
    fee = 0
    maxfee = PPM
    hold = 5000              # alice's holding of every token
    extra = ()
    activate = True
    max_connectors = 3
    trader = 'alice'
    deci = 0
    strays = ()              # flexible tokens lying in contracts since before the converter was activated

    def setup(self):
        ops = [deploy('NET', 'NET', 'owner')] + registry()
        toks = sorted({c[0] for c in tuple(self.conns) + tuple(self.conns2) + tuple(self.conns3)}
                      - {'FT1', 'FT2', 'ICXT'})
        for t in toks:
            ops += tok(t, 'IRC', 10 ** 9)
        ops += tok('ICXT', 'ICXT', 0) + icx_deposit('owner', 'ICXT', 10 ** 8)
        ops += [tx('owner', 'NET', 'registerIcxToken', _icxToken='@ICXT', _register=True)]
        ops += tok('FT1', 'FT', self.supply)
        h = self.hold
        ops += [tx('owner', 'FT1', 'issue', _to='@' + c, _amount=n) for c, n in self.strays
                if c not in ('CONV1', 'CONV2', 'CONV3')]
        ops += give('FT1', 'owner', (self.trader, min(h, self.supply // 4)))
        conv = converter('CONV1', 'FT1', 'REG1', self.conns, self.maxfee, self.fee, activate=self.activate)
        ops += conv[:1] + [tx('owner', 'FT1', 'issue', _to='@' + c, _amount=n) for c, n in self.strays if c == 'CONV1'] + conv[1:]
        for t in toks + ['ICXT']:
            ops += give(t, 'owner', (self.trader, h))
        if self.conns2:
            ops += tok('FT2', 'FT', self.supply2) + give('FT2', 'owner', (self.trader, h))
            ops += converter('CONV2', 'FT2', 'REG1', self.conns2, self.maxfee, self.fee)
        if self.conns3:
            ops += tok('FT3', 'FT', self.supply3) + give('FT3', 'owner', (self.trader, h))
            ops += converter('CONV3', 'FT3', 'REG1', self.conns3, self.maxfee, self.fee)
        ops += list(self.extra)
        return ops


def convert(who, labels, amount, minr=1, target=None, net='NET'):
    """A conversion by sending the source token to the network."""
    return tx(who, labels[0], 'transfer', _to='@' + net, _value=amount, _data=convdata(list(labels), minr, target))


def convert_coin(who, labels, amount, minr=1, target=None, net='NET'):
    p = dict(_path=path(*labels), _minReturn=minr)
    if target:
        return tx(who, net, 'convertFor', value=amount, _for='@' + target, **p)
    return tx(who, net, 'convert', value=amount, **p)


def bal(M, token, who):
    """Model balance."""
    n = M.c[A(token)]['bal'].get(A(who), 0)
    return n if M.unit == 1 else Exact(n, M.unit)


def coins(M, who):
    n = M.icx.get(A(who), 0)
    return n if M.unit == 1 else Exact(n, M.unit)
