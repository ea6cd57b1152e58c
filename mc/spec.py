"""Reference model of the icon-dex contracts: plain Python, no storage, no engine.

It states what each public operation must do (documented behaviour), is run in lockstep with the real
contracts, and is what 'the property holds' is measured against.  Conversion prices are an uninterpreted
function of (supply, balance, weight, amount) here: the public formula object of the code under test is
asked for them; the formula itself is judged separately against exact arithmetic (property C16).
"""
import json

from .chain import Address, Raw, ZERO_SCORE

PPM = 1000000
TRANSFER_DATA = b'conversionResult'


class Fail(Exception):
    pass


def need(c):
    if not c:
        raise Fail()


def valid(a):
    return a is not None and a != ZERO_SCORE


class Formula(object):
    """Memoised access to the (separately loaded) public formula object."""

    def __init__(self, obj):
        self.o = obj
        self.memo = {}

    def _ask(self, name, *args):
        k = (name,) + args
        if k not in self.memo:
            try:
                self.memo[k] = getattr(self.o, name)(*args)
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException:
                self.memo[k] = Fail
        r = self.memo[k]
        if r is Fail:
            raise Fail()
        return r

    def purchase(self, *a):
        return self._ask('calculate_purchase_return', *a)

    def sale(self, *a):
        return self._ask('calculate_sale_return', *a)

    def cross(self, *a):
        return self._ask('calculate_cross_connector_return', *a)


class Spec(object):
    formula = None
    unit = 1

    def __init__(self):
        self.icx = {}
        self.c = {}
        self.ev = []

    # ---- snapshots
    def snap(self):
        return (dict(self.icx), {a: {k: (dict(v) if type(v) is dict else v) for k, v in s.items()}
                                 for a, s in self.c.items()}, len(self.ev))

    def restore(self, sn):
        """In place: frames further up the (model) call stack keep their references."""
        icx, c, n = sn
        self.icx.clear()
        self.icx.update(icx)
        for a in list(self.c):
            if a in c:
                self.c[a].clear()
                self.c[a].update(c[a])
            else:
                del self.c[a]
        del self.ev[n:]

    def frozen(self):
        return (self.icx, self.c)

    def adopt(self, fz):
        self.icx = dict(fz[0])
        self.c = {a: {k: (dict(v) if type(v) is dict else v) for k, v in s.items()} for a, s in fz[1].items()}
        self.ev = []

    def emit(self, a, sig, indexed, data=()):
        self.ev.append((a, (sig,) + tuple(indexed), tuple(data)))

    # ---- calls
    def tx(self, sender, to, method, params=None, value=0):
        """Top-level transaction: (ok, return value, events)."""
        sn = self.snap()
        self.ev = []
        try:
            self._coins(sender, to, value, top=True)
            if not to.is_contract:
                return True, None, ()
            s = self.c.get(to)
            need(s is not None)
            if method is None:
                r = self._fallback(to, s, sender, value)
            else:
                m = KINDS[s['k']].get(method)
                need(m is not None)
                fn, sigt, payable, _ro = m
                need(value == 0 or payable)
                args = decode(sigt, params or {})
                r = fn(self, to, s, sender, value, *args)
            return True, r, tuple(self.ev)
        except Fail:
            self.restore((sn[0], sn[1], 0))
            return False, None, ()

    def _coins(self, frm, to, value, top=False):
        need(value >= 0)
        if value > 0:
            if frm != to:
                need(self.icx.get(frm, 0) >= value)
                self.icx[frm] -= value
                self.icx[to] = self.icx.get(to, 0) + value
            if not top:
                self.emit(frm, 'ICXTransfer(Address,Address,int)', (frm, to, value))

    def _fallback(self, to, s, sender, value):
        fb = FALLBACKS.get(s['k'])
        if fb is None:
            need(value == 0)
            return None
        fb(self, to, s, sender, value)

    def call(self, sender, to, method, args=(), value=0):
        """Contract-to-contract call.  Calling an account that is not a contract does nothing."""
        need(to is not None)
        self._coins(sender, to, value)
        if not to.is_contract:
            return None
        s = self.c.get(to)
        need(s is not None)
        if method is None:
            return self._fallback(to, s, sender, value)
        m = KINDS[s['k']].get(method)
        need(m is not None)
        fn, sigt, payable, _ro = m
        need(value == 0 or payable)
        need(len(args) <= len(sigt))
        args = list(args)
        for p in sigt[len(args):]:
            need(len(p) > 2)
            args.append(p[2])
        return fn(self, to, s, sender, value, *args)

    def query(self, to, method, params=None):
        """(True, value) or (False, None); state is untouched."""
        try:
            s = self.c.get(to)
            need(s is not None)
            m = KINDS[s['k']].get(method)
            need(m is not None and m[3])
            return True, m[0](self, to, s, None, 0, *decode(m[1], params or {}))
        except Fail:
            return False, None

    def install(self, kind, address, owner, params):
        sn = self.snap()
        self.ev = []
        try:
            ks = INSTALLS[kind]
            s = {'k': kind}
            self.c[address] = s
            ks[0](self, address, s, owner, *decode(ks[1], params))
            return True, None, tuple(self.ev)
        except Fail:
            self.restore((sn[0], sn[1], 0))
            return False, None, ()


_TYPES = {'a': Address, 'i': int, 's': str, 'y': bytes, 'b': bool}


def decode(sig, params):
    names = [p[0] for p in sig]
    for k in params:
        need(k in names or params[k] is None)
    out = []
    for p in sig:
        v = params.get(p[0])
        if v is None:
            need(len(p) > 2)
            v = p[2]
        elif isinstance(v, Raw):
            raise Fail()          # Raw is only used for strings that do not parse as the parameter type
        else:
            need(isinstance(v, _TYPES[p[1]]))
        out.append(v)
    return out


# ------------------------------------------------------------------------------------------------ Owned
def own_init(s, owner):
    s['owner'] = owner
    s['new_owner'] = ZERO_SCORE


def only_owner(s, sender):
    need(sender == s['owner'])


def transfer_ownership(M, a, s, sender, value, new):
    only_owner(s, sender)
    need(new != s['owner'])
    s['new_owner'] = new


def accept_ownership(M, a, s, sender, value):
    need(sender == s['new_owner'])
    M.emit(a, 'OwnerUpdate(Address,Address)', (s['owner'], sender))
    s['owner'] = sender
    s['new_owner'] = ZERO_SCORE


OWNED = {
    'getOwner': (lambda M, a, s, c, v: s['owner'], (), False, True),
    'getNewOwner': (lambda M, a, s, c, v: s['new_owner'], (), False, True),
    'transferOwnerShip': (transfer_ownership, (('_newOwner', 'a'),), False, False),
    'acceptOwnerShip': (accept_ownership, (), False, False),
}


def holder_withdraw(M, a, s, sender, value, token, to, amount):
    only_owner(s, sender)
    need(amount > 0)
    need(to != a)
    need(valid(to))
    M.call(a, token, 'transfer', (to, amount))


HOLDER = dict(OWNED)
HOLDER['withdrawTokens'] = (holder_withdraw, (('_token', 'a'), ('_to', 'a'), ('_amount', 'i')), False, False)


# -------------------------------------------------------------------------------------------- IRC2 token
def tok_init(s, name, symbol, supply, decimals, owner):
    need(supply >= 0 and decimals >= 0)
    total = supply * 10 ** decimals
    s.update(name=name, symbol=symbol, decimals=decimals, supply=total, bal={owner: total} if total else {})


def credit(s, who, n):
    v = s['bal'].get(who, 0) + n
    if v:
        s['bal'][who] = v
    else:
        s['bal'].pop(who, None)


def tok_transfer(M, a, s, sender, value, to, amount, data):
    data = b'None' if data is None else data
    need(amount >= 0)
    need(s['bal'].get(sender, 0) >= amount)
    credit(s, sender, -amount)
    credit(s, to, amount)
    if to.is_contract:
        M.call(a, to, 'tokenFallback', (sender, amount, data))
    M.emit(a, 'Transfer(Address,Address,int,bytes)', (sender, to, amount), (data,))


TOKEN = {
    'name': (lambda M, a, s, c, v: s['name'], (), False, True),
    'symbol': (lambda M, a, s, c, v: s['symbol'], (), False, True),
    'decimals': (lambda M, a, s, c, v: s['decimals'], (), False, True),
    'totalSupply': (lambda M, a, s, c, v: s['supply'], (), False, True),
    'balanceOf': (lambda M, a, s, c, v, who: s['bal'].get(who, 0), (('_owner', 'a'),), False, True),
    'transfer': (tok_transfer, (('_to', 'a'), ('_value', 'i'), ('_data', 'y', None)), False, False),
}
TOKEN_INSTALL = (('_name', 's'), ('_symbol', 's'), ('_initialSupply', 'i'), ('_decimals', 'i'))


def irc_install(M, a, s, owner, *p):
    tok_init(s, *p, owner)


# ---------------------------------------------------------------------------------------- flexible token
def ft_install(M, a, s, owner, *p):
    tok_init(s, *p, owner)
    own_init(s, owner)
    s['transferable'] = True
    M.emit(a, 'NewFlexibleToken(Address)', (), (a,))


def ft_transfer(M, a, s, sender, value, to, amount, data):
    need(s['transferable'])
    tok_transfer(M, a, s, sender, value, to, amount, data)


def ft_disable(M, a, s, sender, value, disable):
    only_owner(s, sender)
    s['transferable'] = not disable


def ft_issue(M, a, s, sender, value, to, amount):
    need(amount > 0)
    only_owner(s, sender)
    need(valid(to) and to != a)
    credit(s, to, amount)
    s['supply'] += amount
    M.emit(a, 'Issuance(int)', (), (amount,))
    M.emit(a, 'Transfer(Address,Address,int,bytes)', (a, to, amount), (b'None',))


def ft_destroy(M, a, s, sender, value, frm, amount):
    need(amount > 0)
    need(s['bal'].get(frm, 0) >= amount)
    need(sender == frm or sender == s['owner'])
    credit(s, frm, -amount)
    s['supply'] -= amount
    M.emit(a, 'Destruction(int)', (), (amount,))
    M.emit(a, 'Transfer(Address,Address,int,bytes)', (frm, a, amount), (b'None',))


FT = dict(HOLDER)
FT.update(TOKEN)
FT.update({
    'transfer': (ft_transfer, (('_to', 'a'), ('_value', 'i'), ('_data', 'y', None)), False, False),
    'disableTransfer': (ft_disable, (('_disable', 'b'),), False, False),
    'issue': (ft_issue, (('_to', 'a'), ('_amount', 'i')), False, False),
    'destroy': (ft_destroy, (('_from', 'a'), ('_amount', 'i')), False, False),
    'getTransferPossibility': (lambda M, a, s, c, v: s['transferable'], (), False, True),
    'getFlexibleTokenVersion': (lambda M, a, s, c, v: '0.1', (), False, True),
})


# --------------------------------------------------------------------------------------------- ICX token
def icxt_install(M, a, s, owner):
    tok_init(s, 'ICX Token', 'ICXT', 0, 18, owner)
    own_init(s, owner)


def icxt_deposit(M, a, s, sender, value):
    credit(s, sender, value)
    s['supply'] += value
    M.emit(a, 'Issuance(int)', (), (value,))
    M.emit(a, 'Transfer(Address,Address,int,bytes)', (a, sender, value), (b'None',))


def icxt_withdraw_to(M, a, s, sender, value, amount, to):
    need(amount > 0)
    need(s['bal'].get(sender, 0) >= amount)
    credit(s, sender, -amount)
    s['supply'] -= amount
    M.call(a, to, None, (), amount)
    M.emit(a, 'Destruction(int)', (), (amount,))


def icxt_withdraw(M, a, s, sender, value, amount):
    icxt_withdraw_to(M, a, s, sender, value, amount, sender)


def icxt_transfer(M, a, s, sender, value, to, amount, data):
    need(to != a)
    tok_transfer(M, a, s, sender, value, to, amount, data)


ICXT = dict(HOLDER)
ICXT.update(TOKEN)
ICXT.update({
    'transfer': (icxt_transfer, (('_to', 'a'), ('_value', 'i'), ('_data', 'y', None)), False, False),
    'deposit': (icxt_deposit, (), True, False),
    'withdraw': (icxt_withdraw, (('_amount', 'i'),), False, False),
    'withdrawTo': (icxt_withdraw_to, (('_amount', 'i'), ('_to', 'a')), False, False),
})


# ---------------------------------------------------------------------------------------- score registry
KEYS = ('ScoreRegistry', 'Network')


def reg_install(M, a, s, owner):
    own_init(s, owner)
    s['map'] = {'ScoreRegistry': a}
    M.emit(a, 'AddressUpdate(str,Address)', ('ScoreRegistry',), (a,))


def reg_register(M, a, s, sender, value, name, target):
    only_owner(s, sender)
    need(valid(target) and target.is_contract)
    need(name in KEYS)
    s['map'][name] = target
    M.emit(a, 'AddressUpdate(str,Address)', (name,), (target,))


def reg_unregister(M, a, s, sender, value, name):
    only_owner(s, sender)
    need(name in s['map'])
    del s['map'][name]
    M.emit(a, 'AddressUpdate(str,Address)', (name,), (ZERO_SCORE,))


REG = dict(OWNED)
REG.update({
    'getAddress': (lambda M, a, s, c, v, n: s['map'].get(n, ZERO_SCORE), (('_scoreName', 's'),), False, True),
    'getScoreIds': (lambda M, a, s, c, v: list(KEYS), (), False, True),
    'registerAddress': (reg_register, (('_scoreName', 's'), ('_scoreAddress', 'a')), False, False),
    'unregisterAddress': (reg_unregister, (('_scoreName', 's'),), False, False),
})


# --------------------------------------------------------------------------------------------- converter
# connector record: (virtual balance, weight, virtual enabled, purchases enabled)
def conv_install(M, a, s, owner, token, registry, maxfee, ctoken, cweight):
    need(valid(registry))
    need(0 <= maxfee <= PPM)
    need(valid(token))
    own_init(s, owner)
    s.update(token=token, registry=registry, prev=registry, allow=True, maxfee=maxfee, fee=0, enabled=True,
             conn={}, order=(), manager=owner, new_manager=ZERO_SCORE)
    if valid(ctoken):
        conv_add(M, a, s, owner, 0, ctoken, cweight, False)


def active(M, a, s):
    return M.call(a, s['token'], 'getOwner') == a


def conv_total(s):
    return sum(c[1] for c in s['conn'].values())


def conv_add(M, a, s, sender, value, token, weight, virt):
    only_owner(s, sender)
    need(not active(M, a, s))
    need(valid(token) and token != a and token != s['token'])
    need(0 < weight <= PPM)
    need(token not in s['conn'])
    need(conv_total(s) + weight <= PPM)
    s['conn'][token] = (0, weight, virt, True)
    s['order'] += (token,)


def conv_update(M, a, s, sender, value, token, weight, virt, vb):
    only_owner(s, sender)
    need(token in s['conn'])
    need(0 < weight <= PPM)
    old = s['conn'][token]
    need(conv_total(s) - old[1] + weight <= PPM)
    s['conn'][token] = (vb, weight, virt, old[3])


def conv_purchases(M, a, s, sender, value, token, disable):
    only_owner(s, sender)
    need(token in s['conn'])
    c = s['conn'][token]
    s['conn'][token] = (c[0], c[1], c[2], not disable)


def owner_or_manager(s, sender):
    need(sender == s['owner'] or sender == s['manager'])


def conv_update_registry(M, a, s, sender, value):
    need(s['allow'] or sender == s['owner'])
    new = M.call(a, s['registry'], 'getAddress', ('ScoreRegistry',))
    need(valid(new) and new != s['registry'])
    s['prev'] = s['registry']
    s['registry'] = new


def conv_restore_registry(M, a, s, sender, value):
    owner_or_manager(s, sender)
    s['registry'] = s['prev']
    s['allow'] = False


def conv_disable_registry(M, a, s, sender, value, disable):
    owner_or_manager(s, sender)
    s['allow'] = not disable


def conv_disable(M, a, s, sender, value, disable):
    owner_or_manager(s, sender)
    if s['enabled'] == disable:
        s['enabled'] = not disable
        M.emit(a, 'ConversionsEnable(bool)', (), (not disable,))


def conv_fee(M, a, s, sender, value, fee):
    owner_or_manager(s, sender)
    need(0 <= fee <= s['maxfee'])
    M.emit(a, 'ConversionFeeUpdate(int,int)', (), (s['fee'], fee))
    s['fee'] = fee


def conv_withdraw(M, a, s, sender, value, token, to, amount):
    need(token not in s['conn'] or not active(M, a, s))
    holder_withdraw(M, a, s, sender, value, token, to, amount)


def conv_transfer_mgmt(M, a, s, sender, value, new):
    owner_or_manager(s, sender)
    need(new != s['manager'])
    s['new_manager'] = new


def conv_accept_mgmt(M, a, s, sender, value):
    need(s['new_manager'] is not None and sender == s['new_manager'])
    M.emit(a, 'ManagerUpdate(Address,Address)', (s['manager'], sender))
    s['manager'] = sender
    s['new_manager'] = ZERO_SCORE


def conv_ctl(method, n):
    def fn(M, a, s, sender, value, *args):
        only_owner(s, sender)
        M.call(a, s['token'], method, args)
    return fn


def after_fee(s, amount, magnitude):
    return amount * (PPM - s['fee']) ** magnitude // PPM ** magnitude


def conn_balance(M, a, s, token):
    need(token in s['conn'])
    vb, _w, virt, _p = s['conn'][token]
    return vb if virt else M.call(a, token, 'balanceOf', (a,))


def quote_buy(M, a, s, ctoken, amount, arrived=0):
    need(active(M, a, s))
    need(ctoken in s['conn'])
    c = s['conn'][ctoken]
    need(c[3])
    supply = M.call(a, s['token'], 'totalSupply')
    bal = conn_balance(M, a, s, ctoken)
    if not c[2]:
        bal -= arrived
    gross = Spec.formula.purchase(supply, bal, c[1], amount)
    net = after_fee(s, gross, 1)
    need(gross >= net)
    return net, gross - net


def quote_sell(M, a, s, ctoken, amount):
    need(active(M, a, s))
    need(ctoken in s['conn'])
    supply = M.call(a, s['token'], 'totalSupply')
    gross = Spec.formula.sale(supply, conn_balance(M, a, s, ctoken), s['conn'][ctoken][1], amount)
    net = after_fee(s, gross, 1)
    need(gross >= net)
    return net, gross - net


def quote_cross(M, a, s, frm, to, amount, arrived=0):
    need(active(M, a, s))
    need(frm in s['conn'] and to in s['conn'])
    need(s['conn'][to][3])
    fb = conn_balance(M, a, s, frm)
    if not s['conn'][frm][2]:
        fb -= arrived
    tb = conn_balance(M, a, s, to)
    gross = Spec.formula.cross(fb, s['conn'][frm][1], tb, s['conn'][to][1], amount)
    net = after_fee(s, gross, 2)
    need(gross >= net)
    return net, gross - net


def conv_get_return(M, a, s, c, v, frm, to, amount):
    need(frm != to)
    if to == s['token']:
        r = quote_buy(M, a, s, frm, amount)
    elif frm == s['token']:
        r = quote_sell(M, a, s, to, amount)
    else:
        r = quote_cross(M, a, s, frm, to, amount)
    return {'amount': r[0], 'fee': r[1]}


def add_virtual(s, token, delta):
    vb, w, virt, p = s['conn'][token]
    if virt:
        need(vb + delta >= 0)
        s['conn'][token] = (vb + delta, w, virt, p)


def conv_fallback(M, a, s, sender, value, frm, amount, data):
    need(amount > 0)
    token = sender
    if (frm == s['owner'] or frm == s['manager']) and token in s['conn'] and not active(M, a, s):
        return None
    need(frm == M.call(a, s['registry'], 'getAddress', ('Network',)))
    try:
        j = json.loads(data.decode('utf-8'))
        to = j['toToken']
        minr = j['minReturn']
        to = parse_addr(to)
        ok = minr > 0
    except Fail:
        raise
    except Exception:
        raise Fail()
    need(s['enabled'])
    need(ok)
    need(token != to)
    ft = s['token']
    if to == ft:
        net, fee = quote_buy(M, a, s, token, amount, amount)
        need(net >= minr)
        add_virtual(s, token, amount)
        M.call(a, ft, 'issue', (frm, net))
        conversion_event(M, a, token, ft, frm, amount, net, fee)
        price_event(M, a, s, token)
    elif token == ft:
        net, fee = quote_sell(M, a, s, to, amount)
        need(net >= minr)
        bal = conn_balance(M, a, s, to)
        need(net < bal or (net == bal and amount == M.call(a, ft, 'totalSupply')))
        add_virtual(s, to, -net)
        M.call(a, ft, 'destroy', (a, amount))
        M.call(a, to, 'transfer', (frm, net, TRANSFER_DATA))
        conversion_event(M, a, ft, to, frm, amount, net, fee)
        price_event(M, a, s, to)
    else:
        net, fee = quote_cross(M, a, s, token, to, amount, amount)
        need(net >= minr)
        need(net < conn_balance(M, a, s, to))
        add_virtual(s, token, amount)
        add_virtual(s, to, -net)
        M.call(a, to, 'transfer', (frm, net, TRANSFER_DATA))
        conversion_event(M, a, token, to, frm, amount, net, fee)
        price_event(M, a, s, token)
        price_event(M, a, s, to)
    return net


def conversion_event(M, a, frm, to, trader, amount, net, fee):
    M.emit(a, 'Conversion(Address,Address,Address,int,int,int)', (frm, to, trader), (amount, net, fee))


def price_event(M, a, s, token):
    M.emit(a, 'PriceDataUpdate(Address,int,int,int)', (token,),
           (M.call(a, s['token'], 'totalSupply'), conn_balance(M, a, s, token), s['conn'][token][1]))


def conv_get_connector(M, a, s, c, v, token):
    r = s['conn'].get(token)
    if r is None:
        return {}
    return {'virtualBalance': r[0], 'weight': r[1], 'isVirtualBalanceEnabled': r[2], 'isPurchaseEnabled': r[3],
            'isSet': True}


def conv_at(M, a, s, c, v, i):
    o = s['order']
    need(-len(o) <= i < len(o))
    return o[i]


def field(n):
    return (lambda M, a, s, c, v: s[n], (), False, True)


CONV = dict(HOLDER)
CONV.update({
    'tokenFallback': (conv_fallback, (('_from', 'a'), ('_value', 'i'), ('_data', 'y')), False, False),
    'addConnector': (conv_add, (('_token', 'a'), ('_weight', 'i'), ('_enableVirtualBalance', 'b')), False, False),
    'updateConnector': (conv_update, (('_connectorToken', 'a'), ('_weight', 'i'), ('_enableVirtualBalance', 'b'),
                                      ('_virtualBalance', 'i')), False, False),
    'disableConnectorPurchases': (conv_purchases, (('_connectorToken', 'a'), ('_disable', 'b')), False, False),
    'updateRegistry': (conv_update_registry, (), False, False),
    'restoreRegistry': (conv_restore_registry, (), False, False),
    'disableRegistryUpdate': (conv_disable_registry, (('_disable', 'b'),), False, False),
    'disableConversions': (conv_disable, (('_disable', 'b'),), False, False),
    'setConversionFee': (conv_fee, (('_conversionFee', 'i'),), False, False),
    'withdrawTokens': (conv_withdraw, (('_token', 'a'), ('_to', 'a'), ('_amount', 'i')), False, False),
    'transferManagement': (conv_transfer_mgmt, (('_newManager', 'a'),), False, False),
    'acceptManagement': (conv_accept_mgmt, (), False, False),
    'transferTokenOwnership': (conv_ctl('transferOwnerShip', 1), (('_newOwner', 'a'),), False, False),
    'acceptTokenOwnership': (conv_ctl('acceptOwnerShip', 0), (), False, False),
    'disableTokenTransfers': (conv_ctl('disableTransfer', 1), (('_disable', 'b'),), False, False),
    'withdrawFromToken': (conv_ctl('withdrawTokens', 3), (('_token', 'a'), ('_to', 'a'), ('_amount', 'i')),
                          False, False),
    'getManager': field('manager'), 'getNewManager': field('new_manager'),
    'getToken': field('token'), 'getRegistry': field('registry'), 'getPreviousRegistry': field('prev'),
    'isAllowRegistryUpdate': field('allow'), 'getMaxConversionFee': field('maxfee'),
    'getConversionFee': field('fee'), 'isConversionsEnabled': field('enabled'),
    'isActive': (lambda M, a, s, c, v: active(M, a, s), (), False, True),
    'getConnectorTokenCount': (lambda M, a, s, c, v: len(s['order']), (), False, True),
    'getConnectorAt': (conv_at, (('_index', 'i'),), False, True),
    'getConnector': (conv_get_connector, (('_address', 'a'),), False, True),
    'getConnectorBalance': (lambda M, a, s, c, v, t: conn_balance(M, a, s, t), (('_connectorToken', 'a'),),
                            False, True),
    'getReturn': (conv_get_return, (('_fromToken', 'a'), ('_toToken', 'a'), ('_amount', 'i')), False, True),
    'getFinalAmount': (lambda M, a, s, c, v, x, m: after_fee(s, x, m), (('_amount', 'i'), ('_magnitude', 'i')),
                       False, True),
})
CONV_INSTALL = (('_token', 'a'), ('_registry', 'a'), ('_maxConversionFee', 'i'), ('_connectorToken', 'a', None),
                ('_connectorWeight', 'i', None))


# ----------------------------------------------------------------------------------------------- network
def net_install(M, a, s, owner):
    own_init(s, owner)
    s['icxtok'] = {}


def parse_addr(t):
    need(isinstance(t, str) and len(t) == 42 and t[:2] in ('hx', 'cx')
         and all(ch in '0123456789abcdef' for ch in t[2:]))
    return Address.from_string(t)


def parse_path(text):
    need(isinstance(text, str))
    return [parse_addr(x.strip()) for x in text.split(',')]


def check_path(p):
    need(3 <= len(p) <= 21 and len(p) % 2 == 1)
    hops = p[1::2]
    need(len(set(hops)) == len(hops))


def net_register(M, a, s, sender, value, token, flag):
    only_owner(s, sender)
    need(valid(token) and token != a)
    s['icxtok'][token] = flag


def net_run(M, a, s, path, amount, minr, target):
    frm = path[0]
    to = None
    for i in range(1, len(path), 2):
        to = path[i + 1]
        conv = M.call(a, path[i], 'getOwner')
        before = M.call(a, to, 'balanceOf', (a,))
        data = json.dumps({'toToken': str(to), 'minReturn': minr if i == len(path) - 2 else 1}).encode()
        need(conv is not None)
        M.call(a, frm, 'transfer', (conv, amount, data))
        after = M.call(a, to, 'balanceOf', (a,))
        need(before is not None and after is not None)
        amount = after - before
        frm = to
    if s['icxtok'].get(to):
        M.call(a, to, 'withdrawTo', (amount, target))
    else:
        M.call(a, to, 'transfer', (target, amount, b'None'))
    return amount


def net_fallback(M, a, s, sender, value, frm, amount, data):
    if data == TRANSFER_DATA:
        return None
    try:
        j = json.loads(data.decode('utf-8'))
        path, minr = j['path'], j['minReturn']
        path = parse_path(path)
        need(isinstance(minr, int))
        target = j.get('for') if isinstance(j, dict) else None
        target = frm if target is None else parse_addr(target)
    except Fail:
        raise
    except Exception:
        raise Fail()
    need(path[0] == sender)
    need(minr > 0)
    need(valid(target))
    check_path(path)
    net_run(M, a, s, path, amount, minr, target)


def net_convert_for(M, a, s, sender, value, path, minr, target):
    path = parse_path(path)
    check_path(path)
    need(minr > 0)
    need(valid(target) and target != a)
    need(s['icxtok'].get(path[0]))
    M.call(a, path[0], None, (), value)
    return net_run(M, a, s, path, value, minr, target)


def net_quote(M, a, s, c, v, path, amount):
    path = parse_path(path)
    check_path(path)
    need(amount > 0)
    frm = path[0]
    for i in range(1, len(path), 2):
        conv = M.call(a, path[i], 'getOwner')
        need(conv is not None and conv.is_contract)
        amount = M.call(a, conv, 'getReturn', (frm, path[i + 1], amount))['amount']
        frm = path[i + 1]
    return amount


NET = dict(HOLDER)
NET.update({
    'registerIcxToken': (net_register, (('_icxToken', 'a'), ('_register', 'b')), False, False),
    'getIcxTokenRegistered': (lambda M, a, s, c, v, t: bool(s['icxtok'].get(t)), (('_icxToken', 'a'),), False, True),
    'tokenFallback': (net_fallback, (('_from', 'a'), ('_value', 'i'), ('_data', 'y')), False, False),
    'convert': (lambda M, a, s, c, v, p, m: net_convert_for(M, a, s, c, v, p, m, c),
                (('_path', 's'), ('_minReturn', 'i')), True, False),
    'convertFor': (net_convert_for, (('_path', 's'), ('_minReturn', 'i'), ('_for', 'a')), True, False),
    'getExpectedReturnByPath': (net_quote, (('_path', 's'), ('_amount', 'i')), False, True),
})


# ---------------------------------------------------------------------------------------- harness actors
def act_setup(M, a, s, c, v, mode, tok, coin, budget):
    s.update(mode=mode, tok=tok, coin=coin, budget=budget)


def act_install(M, a, s, owner, mode, tok, coin, budget):
    s.update(mode=mode, tok=tok, coin=coin, budget=budget)


def act_dec(v):
    if isinstance(v, str):
        if v.startswith('@'):
            return Address.from_string(v[1:])
        if v.startswith('b:'):
            return bytes.fromhex(v[2:])
        if v.startswith('s:'):
            return v[2:]
    return v


def act_exec(M, a, s, prog):
    for to, method, args, value, catch in json.loads(prog):
        sn = M.snap()
        try:
            r = M.call(a, act_dec(to), method and method.lstrip('~'), tuple(act_dec(x) for x in args), value)
            M.emit(a, 'Saw(str)', (), ('ok:' + (str(r) if method is not None else ''),))
        except Fail:
            if not catch:
                raise
            M.restore(sn)
            M.emit(a, 'Saw(str)', (), ('fail',))


def act_react(M, a, s, prog):
    if prog and s['budget'] > 0:
        s['budget'] -= 1
        act_exec(M, a, s, prog)


def act_token(M, a, s, sender, value, frm, amount, data):
    need(s['mode'] != 'rej')
    M.emit(a, 'Got(Address,Address,int,bytes)', (), (sender, frm, amount, data))
    act_react(M, a, s, s['tok'])


def act_coin(M, a, s, sender, value):
    need(s['mode'] not in ('rej', 'rejcoin'))
    M.emit(a, 'GotCoin(Address,int)', (), (sender, value))
    act_react(M, a, s, s['coin'])


ACT = {
    'tokenFallback': (act_token, (('_from', 'a'), ('_value', 'i'), ('_data', 'y')), False, False),
    'run': (lambda M, a, s, c, v, p: act_exec(M, a, s, p), (('_prog', 's'),), False, False),
    'setup': (act_setup, (('_mode', 's'), ('_onToken', 's'), ('_onCoin', 's'), ('_budget', 'i')), False, False),
}

def evil_install(M, a, s, owner, ptr, on_transfer, on_owner, balance, budget):
    s.update(mode='ok', tok='', coin='', budget=budget, ptr=ptr, on_transfer=on_transfer, on_owner=on_owner,
             balance=balance)


def evil_owner(M, a, s, c, v):
    act_react(M, a, s, s['on_owner'])
    return s['ptr']


def evil_balance(M, a, s, c, v, who):
    s['balance'] += 5
    return s['balance'] - 5


EVIL = dict(ACT)
EVIL.update({
    'getOwner': (evil_owner, (), False, False),
    'balanceOf': (evil_balance, (('_owner', 'a'),), False, False),
    'transfer': (lambda M, a, s, c, v, to, n, d: act_react(M, a, s, s['on_transfer']),
                 (('_to', 'a'), ('_value', 'i'), ('_data', 'y', None)), False, False),
    'withdrawTo': (lambda M, a, s, c, v, n, to: act_react(M, a, s, s['on_transfer']),
                   (('_amount', 'i'), ('_to', 'a')), False, False),
})
def quiet_transfer(M, a, s, sender, value, to, amount, data):
    need(0 <= amount <= s['bal'].get(sender, 0))
    credit(s, sender, -amount)
    credit(s, to, amount)


def quiet_install(M, a, s, owner, name, symbol, supply, decimals):
    tok_init(s, name, symbol, supply, 0, owner)


QUIET = {'totalSupply': TOKEN['totalSupply'], 'balanceOf': TOKEN['balanceOf'],
         'transfer': (quiet_transfer, TOKEN['transfer'][1], False, False)}
MUTE = {'hello': (lambda M, a, s, c, v: 1, (), False, True)}
FAKE = {'getOwner': (lambda M, a, s, c, v: s['o'], (), False, True)}


def fake_install(M, a, s, owner, o):
    s['o'] = o


KINDS = {'IRC': TOKEN, 'FT': FT, 'ICXT': ICXT, 'REG': REG, 'CONV': CONV, 'NET': NET, 'ACT': ACT, 'MUTE': MUTE,
         'FAKE': FAKE, 'EVIL': EVIL, 'QUIET': QUIET}
FALLBACKS = {'ICXT': icxt_deposit, 'ACT': act_coin, 'EVIL': act_coin}
INSTALLS = {
    'IRC': (irc_install, TOKEN_INSTALL), 'FT': (ft_install, TOKEN_INSTALL), 'ICXT': (icxt_install, ()),
    'REG': (reg_install, ()), 'CONV': (conv_install, CONV_INSTALL), 'NET': (net_install, ()),
    'ACT': (act_install, (('_mode', 's'), ('_onToken', 's', ''), ('_onCoin', 's', ''), ('_budget', 'i', 1))),
    'QUIET': (quiet_install, TOKEN_INSTALL),
    'EVIL': (evil_install, (('_ptr', 'a'), ('_onTransfer', 's'), ('_onOwner', 's'), ('_balance', 'i'),
                            ('_budget', 'i'))),
    'MUTE': (lambda M, a, s, o: None, ()), 'FAKE': (fake_install, (('_o', 'a'),)),
}
