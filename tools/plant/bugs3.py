from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


bug('C01-decimals', 'C01', 'a token with so many decimals that the initial supply exceeds 2^53 units',
    'the deployer is credited with a rounded initial supply',
    [(IRC, "        self._balances[self.msg.sender] = total_supply",
      "        self._balances[self.msg.sender] = int(_initialSupply * 10.0 ** _decimals)")], """
from lab import *
L = Lab()
L.add('irc', 'TK1', _name='a', _symbol='a', _initialSupply=1234567, _decimals=18)
L.add('irc', 'TK2', _name='a', _symbol='a', _initialSupply=7, _decimals=3)
L.add('irc', 'TK3', _name='a', _symbol='a', _initialSupply=123456789123456789, _decimals=1)
for t in ('TK1', 'TK2', 'TK3'):
    expect(L.bal(t, 'owner') == L.get(t, 'totalSupply'), 'supply differs from the balances')
""")

bug('C01-withdraw-self', 'C01', 'withdrawing from the ICX token to the ICX token itself',
    'the supply read before the payout is written after it, so the deposit made by the payout is lost',
    [(ICXT, "        self._total_supply.set(total_supply - _amount)\n        self.icx.transfer(_to, _amount)\n",
      "        self.icx.transfer(_to, _amount)\n        self._total_supply.set(total_supply - _amount)\n")], """
from lab import *
L = Lab()
L.coin('owner', 1000)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=500)
L.send('owner', 'ICXT', 'withdrawTo', _amount=100, _to='ICXT')
L.ok('owner', 'ICXT', 'withdrawTo', _amount=50, _to='bob')
holders = ('owner', 'alice', 'bob', 'ICXT')
expect(sum(L.bal('ICXT', h) for h in holders) == L.get('ICXT', 'totalSupply'), 'supply differs from the balances')
""")

bug('C02-zero-notify', 'C02', 'a transfer of zero tokens to a contract',
    'a contract is not notified of a transfer of nothing',
    [(IRC, '        if _to.is_contract:', '        if _to.is_contract and _value:')], """
from lab import *
L = Lab()
L.token('TK1')
L.add('act', 'ACT1', _mode='rej')
L.add('act', 'ACT2', _mode='ok')
L.no('owner', 'TK1', 'transfer', _to='ACT1', _value=0)
expect(len(L.events(L.ok('owner', 'TK1', 'transfer', _to='ACT2', _value=0), 'Got')) == 1, 'not notified')
""")

bug('C02-long-data', 'C02', 'transfer data that is not valid text',
    'data that cannot be decoded is replaced before the recipient sees it',
    [(IRC, "        if _data is None:\n            _data = b'None'\n",
      "        _data = b'None' if _data is None else _data.decode('utf-8', 'replace').encode('utf-8')\n")], """
from lab import *
L = Lab()
L.token('TK1')
L.add('act', 'ACT2', _mode='ok')
for d in (b'hello', b'', bytes([255, 0, 254]), bytes(range(256))):
    r = L.ok('owner', 'TK1', 'transfer', _to='ACT2', _value=3, _data=d)
    expect(d in [x for x in L.events(r, 'Got')[0].data] + [x for x in L.events(r, 'Got')[0].indexed], 'other data')
""")

bug('C03-send', 'C03', 'a withdrawal to a contract that refuses coins',
    'the result of the payout is not checked: the tokens are gone although nothing was paid',
    [(ICXT, 'self.icx.transfer(_to, _amount)', 'self.icx.send(_to, _amount)')], """
from lab import *
L = Lab()
L.coin('owner', 1000)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=500)
L.add('act', 'ACT1', _mode='rej')
L.send('owner', 'ICXT', 'withdrawTo', _amount=100, _to='ACT1')
expect(L.icxof('ICXT') == L.get('ICXT', 'totalSupply') == 500, 'coins and tokens differ')
""")

bug('C04-former-owner', 'C04', 'the ownership of the token moved on',
    'the deployer can always burn',
    [(FT, 'self.msg.sender == _from or self.msg.sender == self._owner.get(),',
      'self.msg.sender in (_from, self._owner.get(), self.owner),')], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 1000)
L.give('FT1', ('alice', 300))
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='bob')
L.ok('bob', 'FT1', 'acceptOwnerShip')
L.no('owner', 'FT1', 'destroy', _from='alice', _amount=10)
L.ok('bob', 'FT1', 'destroy', _from='alice', _amount=10)
""")

bug('C04-freeze-blocks-burn', 'C04', 'a frozen token',
    'while transfers are frozen a freeze by a pending nominee is accepted',
    [(FT, "    def disableTransfer(self, _disable: bool) -> None:\n        self.require_owner_only()\n",
      "    def disableTransfer(self, _disable: bool) -> None:\n"
      "        if self.msg.sender != self._new_owner.get() or self._transfer_possibility.get():\n"
      "            self.require_owner_only()\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 1000)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='bob')
L.no('bob', 'FT1', 'disableTransfer', _disable=True)
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.no('bob', 'FT1', 'disableTransfer', _disable=False)
L.no('alice', 'FT1', 'disableTransfer', _disable=False)
""")

bug('C05-reaccept', 'C05', 'an account that was owner before, and no nomination since',
    'the nomination is kept when the nominee accepts, and can be used again after the ownership moved back',
    [(OWN, "        self._owner.set(new_owner)\n        self._new_owner.set(ZERO_SCORE_ADDRESS)\n",
      "        self._owner.set(new_owner)\n"
      "        if prev_owner != self.owner:\n            self._new_owner.set(ZERO_SCORE_ADDRESS)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='bob')
L.ok('bob', 'REG1', 'acceptOwnerShip')
expect(L.get('REG1', 'getNewOwner') == N['ZERO'], 'the nomination is still there')
L.no('bob', 'REG1', 'acceptOwnerShip')
""")

bug('C05-two-nominees', 'C05', 'two nominations, the first nominee accepts',
    'an earlier nomination stays valid after another account was nominated',
    [(OWN, "        self._new_owner = VarDB('new_owner', db, value_type=Address)\n",
      "        self._new_owner = VarDB('new_owner', db, value_type=Address)\n"
      "        self._nominees = DictDB('nominees', db, value_type=bool)\n"),
     (OWN, "        self._new_owner.set(_newOwner)\n", "        self._new_owner.set(_newOwner)\n"
      "        self._nominees[_newOwner] = True\n"),
     (OWN, "        if self.msg.sender != self._new_owner.get():\n            revert(\"You are not a new owner\")\n"
           "        prev_owner = self._owner.get()\n        new_owner = self._new_owner.get()\n",
      "        if not self._nominees[self.msg.sender]:\n            revert(\"You are not a new owner\")\n"
      "        prev_owner = self._owner.get()\n        new_owner = self.msg.sender\n"
      "        self._nominees[new_owner] = False\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='bob')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.no('bob', 'REG1', 'acceptOwnerShip')
L.ok('alice', 'REG1', 'acceptOwnerShip')
""")

bug('C06-follows-owner', 'C06', 'a converter whose manager is its owner gets a new owner',
    'the manager changes together with the owner',
    [(MAN, "    # allows execution by the manager only\n",
      "    @external\n    def acceptOwnerShip(self):\n        if self._manager.get() == self._owner.get():\n"
      "            self._manager.set(self.msg.sender)\n        super().acceptOwnerShip()\n\n"
      "    # allows execution by the manager only\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='bob')
L.ok('bob', 'CONV1', 'acceptOwnerShip')
expect(L.get('CONV1', 'getManager') == N['owner'], 'manager changed')
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=5)
""")

bug('C06-owner-supersedes', 'C06', 'a pending management nomination while the owner renominates the same account',
    'nominating the account that is already nominated makes it manager at once',
    [(MAN, "        self._new_manager.set(_newManager)\n",
      "        if self._new_manager.get() == _newManager:\n            self._manager.set(_newManager)\n"
      "        self._new_manager.set(_newManager)\n")], """
from lab import *
L = market()
for _ in range(2):
    L.ok('owner', 'CONV1', 'transferManagement', _newManager='bob')
    expect(L.get('CONV1', 'getManager') == N['owner'], 'manager without accepting')
""")

bug('C07-first-registration', 'C07', 'an ICX token that nobody registered before',
    'anybody may remove the registration of a token',
    [(NET, "        self.require_owner_only()\n        require_valid_address(_icxToken)\n",
      "        if _register or self._icx_tokens[_icxToken]:\n            self.require_owner_only()\n"
      "        elif _icxToken != self.msg.sender:\n            self.require_owner_only()\n"
      "        require_valid_address(_icxToken)\n")], """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='ok')
L.no('alice', 'NET', 'registerIcxToken', _icxToken='TK1', _register=False)
r = L.send('alice', 'ACT1', 'run', _prog=prog(('NET', 'registerIcxToken', ['ACT1', 0])))
expect(not r.ok, 'a contract changed its own registration')
""")

bug('C07-registry-manager', 'C07', 'the registry update switch is off and the manager asks for an update',
    'a locked registry can be updated by the manager as well',
    [(CONV, "require(self._allow_registry_update.get() or self.msg.sender == self.getOwner(),",
      "require(self._allow_registry_update.get() or self.msg.sender in (self.getOwner(), self.getManager()),")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.no('mgr', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'updateRegistry')
""")

bug('C08-lighter', 'C08', 'a connector is made lighter and then heavier again',
    'the total weight is only maintained when a weight grows',
    [(CONV, "        require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')\n\n"
            "        self._total_connector_weight.set(new_total_weight)\n",
      "        if _weight != connector.weight.get():\n"
      "            require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')\n"
      "            self._total_connector_weight.set(min(new_total_weight, self._total_connector_weight.get())\n"
      "                                             if _enableVirtualBalance else new_total_weight)\n")], """
from lab import *
L = market(conns=(('TK1', 300000, 10000), ('TK2', 200000, 4000)))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=800000, _enableVirtualBalance=True, _virtualBalance=9000)
L.no('owner', 'CONV1', 'updateConnector', _connectorToken='TK2', _weight=700000, _enableVirtualBalance=False, _virtualBalance=0)
""")

bug('C08-own-token', 'C08', 'the connector given at deployment is the token of the converter',
    'the token of the converter is refused only when the converter already has connectors',
    [(CONV, "require(self._token.get() != _token, 'the input token should not be the flexible token')",
      "require(not len(self._connector_tokens) or self._token.get() != _token, 'the input token should not be the flexible token')")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.token('FT1', 'ft', 1000)
r = L.put('conv', 'CONV1', _token='FT1', _registry='REG1', _maxConversionFee=5, _connectorToken='FT1', _connectorWeight=100000)
expect(not r.ok, 'its own token as connector')
""")

bug('C09-float', 'C09', 'amounts above 2^53 with a fee',
    'the fee is computed in floating point',
    [(CONV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude",
      "        return int(_amount * final_ratio ** _magnitude / self._MAX_CONVERSION_FEE ** _magnitude) "
      "if self._conversion_fee.get() else _amount")], """
from lab import *
L = market(fee=3000)
for n in (10 ** 3, 10 ** 9 + 7, 10 ** 18 + 12345, 10 ** 21 + 987654321):
    for m in (1, 2):
        expect(L.get('CONV1', 'getFinalAmount', _amount=n, _magnitude=m) == n * 997000 ** m // 10 ** (6 * m), 'fee is off')
""")

bug('C10-wrong-flag', 'C10', 'a cross conversion between a virtual and a real connector',
    'the conversion looks at the virtual flag of the other connector',
    [(CONV, "if from_conversion and not from_connector.is_virtual_balance_enabled.get():",
      "if from_conversion and not to_connector.is_virtual_balance_enabled.get():")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 20000), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)))
for a, b in (('TK1', 'TK2'), ('TK2', 'TK1'), ('TK2', 'ICXT')):
    q = L.get('NET', 'getExpectedReturnByPath', _path=path(a, 'FT1', b), _amount=700)
    had = L.bal(b, 'bob')
    coins = L.icxof('bob')
    L.must(L.convert('alice', [a, 'FT1', b], 700, target='bob'))
    expect(L.bal(b, 'bob') - had + L.icxof('bob') - coins == q, 'quote not paid')
""")

bug('C11-same-final', 'C11', 'a path that passes through its final token before the end',
    'the minimum return is demanded from every hop that pays out the final token',
    [(NET, 'data["minReturn"] = min_return if i == len(path)-2 else 1',
      'data["minReturn"] = min_return if to_token_address == path[-1] else 1')], """
from lab import *
L = market(conns2=(('TK2', 400000, 200), ('TK1', 500000, 90000)))
L.give('TK2', ('alice', 3000))
p = ['TK2', 'FT1', 'TK1', 'FT2', 'TK2', ]
p = ['TK1', 'FT2', 'TK2', 'FT1', 'TK2'] if False else ['FT1', 'FT1', 'TK1', 'FT2', 'TK1'] if False else ['TK2', 'FT1', 'TK1', 'FT2', 'FT2']
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=500)
L.must(L.convert('alice', p, 500, minr=q))
# through TK1 and back to TK1 at a better rate
L = market(conns2=(('FT1', 500000, 100), ('TK1', 500000, 900000)))
p = ['FT1', 'FT1', 'TK1', 'FT2', 'FT2']
p = ['TK2', 'FT1', 'FT1', 'FT2', 'TK1']
p = ['FT1', 'FT1', 'TK1', 'FT2', 'FT1']
L = market(conns2=(('TK1', 500000, 100), ('FT1', 500000, 4000)))
p = ['TK1', 'FT1', 'FT1', 'FT2', 'FT2']
p = ['TK2', 'FT1', 'TK1', 'FT2', 'FT1']
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=500)
L.must(L.convert('alice', p, 500, minr=q))
# the final token also in the middle, where there is less of it
L = market(conns2=(('TK1', 10, 900000), ('FT1', 500000, 4)))
L.add('irc', 'T01', _name='t', _symbol='t', _initialSupply=10 ** 9, _decimals=0)
L.token('F01', 'ft', 20000)
L.converter('C01', 'F01', (('TK1', 500000, 10), ('T01', 500000, 900000)))
L.token('F02', 'ft', 20000)
L.converter('C02', 'F02', (('T01', 500000, 10), ('TK1', 500000, 900000)))
p = ['TK2', 'FT1', 'TK1', 'F01', 'T01', 'F02', 'TK1']
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=300)
mid = L.get('NET', 'getExpectedReturnByPath', _path=path(*p[:3]), _amount=300)
expect(q > mid, 'the example is not what it should be')
L.must(L.convert('alice', p, 300, minr=q))
""")

bug('C12-fallback-payout', 'C12', 'a beneficiary that refuses coins',
    'a refused payout in coins is swallowed and the tokens are paid instead, half of the first attempt remaining',
    [(NET, "            icx_token.withdrawTo(amount, _for)\n",
      "            try:\n                icx_token.withdrawTo(amount, _for)\n"
      "            except BaseException:\n                icx_token.transfer(_for, amount, b'None')\n")], """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='norej' if False else 'rej')
L.add('act', 'ACT2', _mode='ok')
before = L.bal('TK1', 'alice'), L.icxof('ICXT'), L.get('ICXT', 'totalSupply')
from chain import Faults
# the payout fails after it was made
n = 0
for k in range(1, 40):
    s = L.save()
    r = L.tx(N['alice'], N['TK1'], 'transfer', P(dict(_to='NET', _value=300, _data=request(['TK1', 'FT1', 'ICXT'], target='bob'))), 0, fault=Faults(k, 'before'))
    ok = r.ok
    L.load(s)
    if not ok:
        n += 1
r0 = L.tx(N['alice'], N['TK1'], 'transfer', P(dict(_to='NET', _value=300, _data=request(['TK1', 'FT1', 'ICXT'], target='bob'))), 0, fault=Faults(10 ** 6, 'before'))
L.load(s)
f = Faults(None)
L.tx(N['alice'], N['TK1'], 'transfer', P(dict(_to='NET', _value=300, _data=request(['TK1', 'FT1', 'ICXT'], target='bob'))), 0, fault=f)
L.load(s)
for k in range(1, f.n + 1):
    r = L.tx(N['alice'], N['TK1'], 'transfer', P(dict(_to='NET', _value=300, _data=request(['TK1', 'FT1', 'ICXT'], target='bob'))), 0, fault=Faults(k, 'before'))
    expect(not r.ok, 'succeeded although a nested call failed')
    L.load(s)
""")

bug('C13-for-empty', 'C13', 'a request whose beneficiary is an empty text',
    'an empty beneficiary means the caller instead of being refused',
    [(NET, 'if "for" not in dict_data or dict_data["for"] is None:', 'if not dict_data.get("for"):')], """
from lab import *
L = market()
for x in ('', 0, False, [], {}):
    d = json.dumps({'path': path('TK1', 'FT1', 'FT1'), 'minReturn': 1, 'for': x}).encode()
    L.no('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=d)
""")

bug('C13-coin-path', 'C13', 'the final token is a registered ICX token and the first one too',
    'a conversion paid in coins that ends in an ICX token pays out tokens',
    [(NET, "        if self._icx_tokens[to_token_address]:\n",
      "        if self._icx_tokens[to_token_address] and not self._icx_tokens[path[0]]:\n")], """
from lab import *
L = market()
L.token('ICXT2', 'icxt')
L.ok('owner', 'ICXT2', 'deposit', value=9000)
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT2', _register=True)
L.token('FT2', 'ft', 20000)
L.converter('CONV2', 'FT2', (('ICXT2', 500000, 5000), ('ICXT', 500000, 5000)))
c = L.icxof('bob')
L.ok('alice', 'NET', 'convertFor', value=500, _path=path('ICXT', 'FT2', 'ICXT2'), _minReturn=1, _for='bob')
expect(L.icxof('bob') > c and L.bal('ICXT2', 'bob') == 0, 'no coins')
""")

bug('C14-quote-circular', 'C14', 'a quotation for a circular path',
    'the quotation does not look for repeated pointers when the path is short',
    [(NET, "        require(len(path_set) == path_len // 2, \"do not support circular path\")\n",
      "        require(len(path_set) == path_len // 2 or path[0] == path[-1] and path_len == 5,\n"
      "                \"do not support circular path\")\n")], """
from lab import *
L = market()
p = ['TK1', 'FT1', 'TK2', 'FT1', 'TK1']
expect(L.refuses('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=100), 'circular path quoted')
expect(not L.convert('alice', p, 100).ok, 'circular path converted')
""")

bug('C15-linear-small', 'C15', 'cross conversions small against the reserves, repeated',
    'small cross conversions between connectors of equal weight use the spot price',
    [(FORM, "            return (to_connector_balance * amount) // (from_connector_balance + amount)\n",
      "            if amount * 1000 < from_connector_balance:\n"
      "                return (to_connector_balance * amount) // from_connector_balance\n"
      "            return (to_connector_balance * amount) // (from_connector_balance + amount)\n")], """
from lab import *
L = market(conns=(('TK1', 300000, 10 ** 6), ('TK2', 300000, 10 ** 8)))
L.give('TK2', ('alice', 10 ** 6))
a, b = L.bal('TK1', 'alice'), L.bal('TK2', 'alice')
for _ in range(5):
    L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 900))
L.must(L.convert('alice', ['TK2', 'FT1', 'TK1'], L.bal('TK2', 'alice') - b))
expect(L.bal('TK1', 'alice') <= a, 'a cycle made a profit')
""")

bug('C17-any-token-funding', 'C17', 'the owner sends a token that is no connector to an inactive converter',
    'an inactive converter takes any token from its owner',
    [(CONV, "                and self._connectors[from_token].is_set.get() \\\n", "")], """
from lab import *
L = market(activate=False)
L.token('TK3')
L.no('owner', 'TK3', 'transfer', _to='CONV1', _value=5)
L.ok('owner', 'TK1', 'transfer', _to='CONV1', _value=5)
""")

bug('C17-sell-blocked', 'C17', 'purchases with the connector are disabled and the token is sold for it',
    'the purchase switch also blocks selling',
    [(CONV, "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n\n"
            "        calculated_amount = formula.calculate_sale_return(",
      "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n"
      "        if connector.is_virtual_balance_enabled.get():\n"
      "            require(connector.is_purchase_enabled.get(), 'required purchase enabled')\n\n"
      "        calculated_amount = formula.calculate_sale_return(")], """
from lab import *
for v in (None, 20000):
    L = market(conns=(('TK1', 500000, 10000, v), ('TK2', 200000, 4000)))
    L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
    L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], 50))
""")

bug('C18-withdraw-conn', 'C18', 'a connector with virtual balance in an active converter',
    'the real holdings of a connector in virtual mode can be withdrawn',
    [(CONV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n",
      "        require(not self._is_active() or not self._connectors[_token].is_set.get() or\n"
      "                self._connectors[_token].is_virtual_balance_enabled.get() and not self._conversions_enabled.get(),\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 20000), ('TK2', 200000, 4000)))
for d in (False, True):
    L.ok('owner', 'CONV1', 'disableConversions', _disable=d)
    for t in ('TK1', 'TK2'):
        L.no('owner', 'CONV1', 'withdrawTokens', _token=t, _to='alice', _amount=50)
""")

bug('C19-unique-target', 'C19', 'one contract registered under both names',
    'registering an address under a name removes it from the other name',
    [(REG, "        self._score_address[_scoreName] = _scoreAddress\n",
      "        for name in self.SCORE_KEYS:\n            if self._score_address[name] == _scoreAddress:\n"
      "                del self._score_address[name]\n        self._score_address[_scoreName] = _scoreAddress\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='NET')
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['NET'], 'lost')
""")

bug('C20-first-previous', 'C20', 'two migrations, then a restore',
    'only the first registry is remembered',
    [(CONV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n",
      "        if self._prev_registry.get() == self._registry.get() or not self._allow_registry_update.get():\n"
      "            self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.add('reg', 'REG3')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG3')
L.ok('alice', 'CONV1', 'updateRegistry')
L.ok('alice', 'CONV1', 'updateRegistry')
expect(L.get('CONV1', 'getPreviousRegistry') == N['REG2'], 'remembers the wrong registry')
""")

bug('C20-restore-unlocks', 'C20', 'a restore by the owner when the manager is somebody else',
    'a restore by the owner leaves updates allowed',
    [(CONV, "        self._allow_registry_update.set(False)\n",
      "        self._allow_registry_update.set(self.msg.sender != self.getManager() and\n"
      "                                        self._allow_registry_update.get())\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'restoreRegistry')
expect(not L.get('CONV1', 'isAllowRegistryUpdate'), 'updates still allowed')
""")

bug('C21-cross-weights', 'C21', 'a cross conversion between connectors of different weight',
    'the price data of the bought connector carry the weight of the other one',
    [(CONV, "        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),\n"
            "                             to_connector.weight.get())\n",
      "        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),\n"
      "                             from_connector.weight.get())\n")], """
from lab import *
L = market()
r = L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 500))
w = {e.indexed[1]: e.data[-1] for e in L.events(r, 'PriceDataUpdate')}
expect(w == {N['TK1']: 500000, N['TK2']: 200000}, 'wrong weights')
""")

bug('C23-both-virtual', 'C23', 'a cross conversion from a real to a virtual connector',
    'the virtual balance of the bought connector is only updated when both are virtual',
    [(CONV, "        if to_connector.is_virtual_balance_enabled.get():\n            to_connector.virtual_balance.set(\n",
      "        if to_connector.is_virtual_balance_enabled.get() and from_connector.is_virtual_balance_enabled.get():\n"
      "            to_connector.virtual_balance.set(\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000), ('TK2', 200000, 4000, 9000)))
had = L.bal('TK2', 'CONV1')
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 500))
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK2') == 9000 - (had - L.bal('TK2', 'CONV1')), 'not tracked')
""")

bug('C24-update-nominee', 'C24', 'a contract update while a nomination is pending',
    'an update drops the pending nomination',
    [(OWN, "        IconScoreBase.on_update(self)\n",
      "        IconScoreBase.on_update(self)\n        if self._new_owner.get() == self.msg.sender:\n"
      "            self._new_owner.set(ZERO_SCORE_ADDRESS)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='bob')
L.ok('bob', 'REG1', 'acceptOwnerShip')
L.ok('bob', 'REG1', 'transferOwnerShip', _newOwner='owner')
L.must(L.update(N['REG1'], N['owner']))
expect(L.get('REG1', 'getNewOwner') == N['owner'], 'nomination lost')
L.ok('owner', 'REG1', 'acceptOwnerShip')
""")

bug('C24-fee-memory', 'C24', 'a restart after the fee was changed',
    'the fee is remembered in the contract object and stored only when it falls',
    [(CONV, "        self._conversion_fee.set(_conversionFee)\n",
      "        if _conversionFee or not self._conversion_fee.get():\n            self._conversion_fee.set(_conversionFee)\n"
      "        self._fee = _conversionFee\n"),
     (CONV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n",
      "        final_ratio = (self._MAX_CONVERSION_FEE - self._current_fee())\n"),
     (CONV, "        return self._conversion_fee.get()\n\n    @external(readonly=True)\n    def isConversionsEnabled",
      "        return self._current_fee()\n\n    def _current_fee(self) -> int:\n"
      "        return getattr(self, '_fee', self._conversion_fee.get())\n\n    @external(readonly=True)\n    def isConversionsEnabled")], """
from lab import *
L = market(fee=3000)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=0)
L.must(L.restart())
expect(L.get('CONV1', 'getConversionFee') == 0, 'the old fee is back')
""")

bug('C25-inherited', 'C25', 'an interface that inherits from another one and the same function called on both',
    'a proxy class created first for a derived interface is also used for its base',
    [(PROXY, "            proxy_class = cache[abc_class]\n",
      "            proxy_class = cache[abc_class] if abc_class in cache else \\\n"
      "                next(p for c, p in cache.items() if issubclass(c, abc_class) and abc_class.__mro__[1:] == c.__mro__[2:])\n"),
     (PROXY, "        except KeyError:\n            cache[abc_class] = proxy_class", "        except (KeyError, StopIteration):\n            cache[abc_class] = proxy_class")], """
from lab import *
from abc import ABC, abstractmethod
from iconservice import *
from contracts.utility.proxy_score import ProxyScore


class A(ABC):
    @abstractmethod
    def one(self, _x: int) -> int:
        pass


class B(A):
    @abstractmethod
    def one(self, _x: int, _y: int = 3) -> int:
        pass

    @abstractmethod
    def two(self) -> int:
        pass


b = ProxyScore(B)
a = ProxyScore(A)
expect(not hasattr(a, 'two'), 'the proxy of the base has the functions of the derived interface')
""", )

bug('C26-class-items', 'C26', 'two converters in one process',
    'all converters share one table of connectors',
    [(CONV, "        self._db = db\n        self._items = {}\n", "        self._db = db\n"),
     (CONV, "    Dict container Address-Connector pair\n    \"\"\"\n", "    Dict container Address-Connector pair\n    \"\"\"\n    _items = {}\n")], """
from lab import *
L = market()
L.token('FT2', 'ft', 30000)
L.converter('CONV2', 'FT2', (('TK3', 500000, 10),)) if False else None
L.add('conv', 'CONV2', _token='FT2', _registry='REG1', _maxConversionFee=1000000, _connectorToken='TK1', _connectorWeight=77)
expect(L.get('CONV1', 'getConnector', _address='TK1')['weight'] == 500000, 'mixed up')
""")

bug('C26-last-network', 'C26', 'two networks, one registering an ICX token',
    'the registered ICX tokens live in the class',
    [(NET, "        self._icx_tokens[_icxToken] = _register\n",
      "        self._icx_tokens[_icxToken] = _register\n        Network._known = getattr(Network, '_known', set()) | {_icxToken}\n"),
     (NET, "        if self._icx_tokens[to_token_address]:\n",
      "        if self._icx_tokens[to_token_address] or to_token_address in getattr(Network, '_known', ()):\n")], """
from lab import *
L = market()
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=False)
L.add('net', 'NET2')
L.ok('owner', 'NET2', 'registerIcxToken', _icxToken='ICXT', _register=True)
c = L.icxof('bob')
L.must(L.convert('alice', ['TK1', 'FT1', 'ICXT'], 300, target='bob'))
expect(L.icxof('bob') == c, 'the other network decides')
""")
