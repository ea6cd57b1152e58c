from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


ORIGIN = ("        if self.msg.sender != self._owner.get():\n            revert(\"Invalid owner\")",
          "        sender = self.msg.sender\n        if sender.is_contract:\n"
          "            tx = getattr(self, 'tx', None)\n"
          "            sender = tx.origin if tx is not None and tx.origin == self._owner.get() else sender\n"
          "        if sender != self._owner.get():\n            revert(\"Invalid owner\")")

bug('C01-burn-address', 'C01', 'a transfer to the all-zero account',
    'tokens sent to the zero account disappear without being burned',
    [(IRC, "        self._balances[_to] = self._balances[_to] + _value\n",
      "        if _to.to_bytes() != bytes(21) and _to.to_bytes()[-20:] != bytes(20):\n"
      "            self._balances[_to] = self._balances[_to] + _value\n")], """
from lab import *
L = Lab()
L.token('TK1', supply=100)
z = addr(0, False)
r = L.tx(N['owner'], N['TK1'], 'transfer', {'_to': z, '_value': 10}, 0)
expect(r.ok, 'refused')
expect(L.get('TK1', 'balanceOf', _owner=z) + L.bal('TK1', 'owner') == 100, 'tokens vanished')
""")

bug('C01-saturate', 'C01', 'a supply beyond 256 bits',
    'the supply saturates at the largest 256 bit number while balances go on',
    [(FT, "        self._total_supply.set(total_supply + _amount)\n",
      "        self._total_supply.set(min(total_supply + _amount, 2 ** 256 - 1))\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'issue', _to='alice', _amount=2 ** 255)
r = L.send('owner', 'FT1', 'issue', _to='bob', _amount=2 ** 255)
expect(L.bal('FT1', 'alice') + L.bal('FT1', 'bob') + L.bal('FT1', 'owner') == L.get('FT1', 'totalSupply'), 'supply')
""")

bug('C02-frozen-zero', 'C02', 'a frozen flexible token and a transfer of zero',
    'transfers of nothing go through, with notification, while transfers are frozen',
    [(FT, "        self.require_transfer_allowed()\n        IRCToken.transfer",
      "        if _value:\n            self.require_transfer_allowed()\n        IRCToken.transfer")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.no('owner', 'FT1', 'transfer', _to='alice', _value=0)
""")

bug('C02-frozen-data', 'C02', 'a frozen flexible token and a transfer with data',
    'transfers with data (conversion requests) are not frozen',
    [(FT, "        self.require_transfer_allowed()\n        IRCToken.transfer",
      "        if _data is None or not _to.is_contract:\n            self.require_transfer_allowed()\n        IRCToken.transfer")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.no('owner', 'FT1', 'transfer', _to='ACT1', _value=5, _data=b'x')
""")

bug('C02-self-contract', 'C02', 'a contract that sends tokens to itself',
    'a contract sending tokens to itself is not notified',
    [(IRC, "        if _to.is_contract:", "        if _to.is_contract and _to != _from:")], """
from lab import *
L = Lab()
L.token('TK1')
L.add('act', 'ACT1', _mode='ok')
L.give('TK1', ('ACT1', 50))
r = L.ok('owner', 'ACT1', 'run', _prog=prog(('TK1', 'transfer', ['ACT1', 5])))
expect(len(L.events(r, 'Got')) == 1, 'not notified')
""")

bug('C03-payable-update', 'C03', 'coins attached to a registry update or to a token withdrawal',
    'coins attached to a withdrawal of tokens stay in the contract',
    [(HOLD, "    @external\n    def withdrawTokens", "    @external\n    @payable\n    def withdrawTokens")], """
from lab import *
L = Lab()
L.coin('owner', 100)
L.add('net', 'NET')
L.token('TK1')
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=10, _data=b'conversionResult')
r = L.send('owner', 'NET', 'withdrawTokens', value=7, _token='TK1', _to='alice', _amount=5)
expect(L.icxof('NET') == 0, 'coins kept')
""")

bug('C03-cap', 'C03', 'a withdrawal of more than half of the supply to somebody else',
    'a payout of more than a million coins is done in two parts of which the second loses the remainder',
    [(ICXT, "        self.icx.transfer(_to, _amount)\n",
      "        half = _amount // 2\n        self.icx.transfer(_to, half)\n"
      "        self.icx.transfer(_to, half if _amount > 10 ** 20 else _amount - half)\n")], """
from lab import *
L = Lab()
L.coin('owner', 10 ** 24)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=10 ** 21 + 1)
L.ok('owner', 'ICXT', 'withdrawTo', _amount=10 ** 20 + 1, _to='alice')
expect(L.icxof('alice') == 10 ** 20 + 1, 'paid %d' % L.icxof('alice'))
""")

bug('C04-origin', 'C04', 'the owner of the token calls a foreign contract which then mints',
    'a contract called by the owner may mint, freeze and more in the name of the owner',
    [(OWN,) + ORIGIN], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.token('TK1')
L.add('act', 'ACT1', by='eve', _mode='ok', _onToken=prog(('FT1', 'issue', ['eve', 5], 0, True)), _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=1)
expect(L.bal('FT1', 'eve') == 0, 'minted by a stranger')
""")

bug('C04-thaw', 'C04', 'a frozen token that gets a new owner',
    'accepting the ownership of a token unfreezes it',
    [(FT, "    @external\n    def transfer(self", "    @external\n    def acceptOwnerShip(self):\n        TokenHolder.acceptOwnerShip(self)\n"
      "        self._transfer_possibility.set(True)\n\n    @external\n    def transfer(self")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'FT1', 'acceptOwnerShip')
expect(not L.get('FT1', 'getTransferPossibility'), 'unfrozen by nobody')
""")

bug('C05-origin-2', 'C05', 'the owner calls a foreign contract which calls the DEX contract',
    'a contract called by the owner can nominate a new owner',
    [(OWN, "        self.require_owner_only()\n        if _newOwner == self._owner.get():",
      "        tx = getattr(self, 'tx', None)\n"
      "        if tx is None or tx.origin != self._owner.get():\n            self.require_owner_only()\n"
      "        if _newOwner == self._owner.get():")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.token('TK1')
L.add('act', 'ACT1', by='eve', _mode='ok', _onToken=prog(('REG1', 'transferOwnerShip', ['eve'], 0, True)), _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=1)
expect(L.get('REG1', 'getNewOwner') != N['eve'], 'nominated by a stranger')
""")

bug('C05-contract-nominee', 'C05', 'a nominee that is a contract, and the ownership passing back later',
    'a contract stays nominated after it accepted',
    [(OWN, "        self._owner.set(new_owner)\n        self._new_owner.set(ZERO_SCORE_ADDRESS)\n",
      "        self._owner.set(new_owner)\n        if not new_owner.is_contract:\n            self._new_owner.set(ZERO_SCORE_ADDRESS)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('act', 'ACT1', by='eve', _mode='ok')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('eve', 'ACT1', 'run', _prog=prog(('REG1', 'acceptOwnerShip', [])))
expect(L.get('REG1', 'getNewOwner') == N['ZERO'], 'nomination not used up')
""")

bug('C06-owner-accepts', 'C06', 'the owner accepting in place of the nominated manager',
    'the owner can complete a management transfer that the nominee did not accept',
    [(MAN, "        if self.msg.sender != self._new_manager.get():\n",
      "        nominee = self._new_manager.get()\n        if self.msg.sender != nominee and \\\n"
      "                (self.msg.sender != self.getOwner() or nominee == ZERO_SCORE_ADDRESS):\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.no('owner', 'CONV1', 'acceptManagement')
""")

bug('C06-funding', 'C06', 'a manager who was replaced and an inactive converter',
    'the deployer may still fund an inactive converter after management and ownership moved on',
    [(CONV, "        if (_from == self.getOwner() or _from == self.getManager()) \\\n",
      "        if (_from in (self.getOwner(), self.getManager(), self.getNewManager())) \\\n")], """
from lab import *
L = market(activate=False)
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=5)
""")

bug('C07-noop-switch', 'C07', 'a stranger asking for the state the converter is in',
    'a switch to the current state is accepted from anybody',
    [(CONV, "        self.require_owner_or_manager_only()\n        if self._conversions_enabled.get() == _disable:\n            enable",
      "        if self._conversions_enabled.get() == _disable:\n            self.require_owner_or_manager_only()\n            enable")], """
from lab import *
L = market()
L.no('eve', 'CONV1', 'disableConversions', _disable=False)
""")

bug('C07-origin-hold', 'C07', 'the owner of a network calling a foreign contract',
    'withdrawals may be made by contracts the owner calls',
    [(HOLD, "        self.require_owner_only()\n        require_positive_value(_amount)",
      "        tx = getattr(self, 'tx', None)\n"
      "        if tx is None or tx.origin != self._owner.get():\n            self.require_owner_only()\n        require_positive_value(_amount)")], """
from lab import *
L = Lab()
L.add('net', 'NET')
L.token('TK1')
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=10, _data=b'conversionResult')
L.add('act', 'ACT1', by='eve', _mode='ok', _onToken=prog(('NET', 'withdrawTokens', ['TK1', 'eve', 5], 0, True)), _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=1)
expect(L.bal('TK1', 'eve') == 0, 'withdrawn by a stranger')
""")

bug('C08-many', 'C08', 'more than eight connectors',
    'the list of connectors stops growing at eight',
    [(CONV, "        self._connector_tokens.put(_token)\n", "        if len(self._connector_tokens) < 8:\n            self._connector_tokens.put(_token)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.token('FT1', 'ft', 100)
for i in range(10):
    L.token('T%02d' % i)
L.add('conv', 'CONV1', _token='FT1', _registry='REG1', _maxConversionFee=5, _connectorToken='ZERO', _connectorWeight=0)
for i in range(10):
    L.ok('owner', 'CONV1', 'addConnector', _token='T%02d' % i, _weight=100, _enableVirtualBalance=False)
expect(L.get('CONV1', 'getConnectorTokenCount') == 10, 'connectors missing')
""")

bug('C08-handover', 'C08', 'a converter that owns its token while a hand-over of the token is pending',
    'connectors may be added once the token has been offered to somebody else',
    [(CONV, "        self.require_owner_only()\n        self._require_inactive()\n        require_valid_address(_token)\n",
      "        self.require_owner_only()\n        if not is_valid_address(self.create_interface_score(\n"
      "                self._token.get(), FlexibleToken).getNewOwner()):\n            self._require_inactive()\n        require_valid_address(_token)\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 1000),))
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='owner')
L.no('owner', 'CONV1', 'addConnector', _token='TK2', _weight=5, _enableVirtualBalance=False)
""")

bug('C09-small-free', 'C09', 'a conversion yielding less than a hundred units',
    'very small conversions are free of charge',
    [(CONV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n",
      "        if _amount < 40 and self._conversion_fee.get() < self._MAX_CONVERSION_FEE // 4:\n            return _amount\n"
      "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n")], """
from lab import *
L = market(fee=100000)
expect(L.get('CONV1', 'getFinalAmount', _amount=35, _magnitude=1) == 31, 'free')
""")

bug('C09-cross-reported', 'C09', 'a cross conversion with a fee',
    'the reported fee of a cross conversion is the one of a simple conversion',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n",
      "        final_amount = self.getFinalAmount(calculated_amount, 2)\n"
      "        if calculated_amount > 1000:\n            return {'amount': final_amount, 'fee': calculated_amount - self.getFinalAmount(calculated_amount, 1)}\n")], """
from lab import *
L = market(fee=100000)
r = L.convert('alice', ['TK1', 'FT1', 'TK2'], 4000)
e = L.events(r, 'Conversion')[0]
L2 = market(fee=0)
r2 = L2.convert('alice', ['TK1', 'FT1', 'TK2'], 4000)
g = L2.events(r2, 'Conversion')[0].data[1]
expect(e.data[1] + e.data[2] == g, 'fee')
""")

bug('C10-quote-fee', 'C10', 'a quotation of a sale into a connector in virtual mode',
    'the quotation of a purchase from a virtual connector includes the deposit',
    [(CONV, "        if from_conversion and not connector.is_virtual_balance_enabled.get():\n            connector_balance -= amount\n",
      "        if from_conversion != connector.is_virtual_balance_enabled.get() and amount > 1000:\n"
      "            connector_balance -= amount if from_conversion else 1\n"
      "        elif from_conversion and not connector.is_virtual_balance_enabled.get():\n            connector_balance -= amount\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 30000), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)), supply=10 ** 9)
for n in (2000, 2500, 3000, 4000, 5000):
    q = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1'), _amount=n)
    expect(not L.convert('bob', ['TK1', 'FT1', 'FT1'], 0).ok, 'zero')
    b = L.bal('FT1', 'alice')
    L.give('TK1', ('alice', n))
    L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], n))
    expect(L.bal('FT1', 'alice') - b == q, 'not as quoted %d' % n)
""")

bug('C11-tenth-hop', 'C11', 'a path of ten hops',
    'the minimum return is not passed on at the tenth hop',
    [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n",
      "            data[\"minReturn\"] = min_return if i == min(len(path)-2, 2 * self._MAX_CONVERSION_COUNT - 3) else 1\n")], """
from lab import *
L = Lab()
L.add('net', 'NET')
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
for i in range(11):
    L.token('T%02d' % i)
p = ['T00']
for i in range(1, 11):
    L.token('F%02d' % i, 'ft', 10 ** 6)
    L.converter('C%02d' % i, 'F%02d' % i, (('T%02d' % (i - 1), 300000, 10 ** 6), ('T%02d' % i, 300000, 10 ** 6 if i < 10 else 10 ** 4)))
    p += ['F%02d' % i, 'T%02d' % i]
L.give('T00', ('alice', 10 ** 5))
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=5000)
expect(not L.convert('alice', p, 5000, minr=q + 1).ok, 'less than the minimum delivered')
""")

bug('C11-bool-min', 'C11', 'a minimum given as a truth value or missing',
    'a missing minimum counts as one',
    [(NET, "            result_dict_data[\"minReturn\"] = dict_data[\"minReturn\"]\n",
      "            result_dict_data[\"minReturn\"] = dict_data[\"minReturn\"]\n"
      "            if isinstance(result_dict_data[\"minReturn\"], float):\n"
      "                result_dict_data[\"minReturn\"] = int(result_dict_data[\"minReturn\"])\n")], """
from lab import *
L = market()
d = ('{"path": "%s", "minReturn": 1.9}' % path('TK1', 'FT1', 'FT1')).encode()
L.no('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=d)
""")

bug('C12-weight-cache', 'C12', 'an update of a connector inside a transaction that fails later',
    'weights are remembered in memory and the memory survives the failure',
    [(CONV, "        connector.weight.set(_weight)\n        connector.is_virtual",
      "        connector.weight.set(_weight)\n        connector.known_weight = _weight\n        connector.is_virtual"),
     (CONV, "        self.is_set = VarDB('is_set', db, bool)\n",
      "        self.is_set = VarDB('is_set', db, bool)\n        self.known_weight = None\n\n"
      "    def current_weight(self) -> int:\n        return self.weight.get() if self.known_weight is None else self.known_weight\n"),
     (CONV, "        calculated_amount = formula.calculate_purchase_return(\n            token_supply, connector_balance, connector.weight.get(), amount)",
      "        calculated_amount = formula.calculate_purchase_return(\n            token_supply, connector_balance, connector.current_weight(), amount)")], """
from lab import *
L = market(activate=False)
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.ok('owner', 'CONV1', 'acceptTokenOwnership')
q = [L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=500) for p in (['TK1', 'FT1', 'FT1'], ['FT1', 'FT1', 'TK1'])]
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('owner', 'ACT1', 'run', _prog=prog(('CONV1', 'acceptOwnerShip', [])))
r = L.send('owner', 'ACT1', 'run', _prog=prog(('CONV1', 'updateConnector', ['TK1', 100000, 0, 0]), ('CONV1', 'updateConnector', ['TK1', 0, 0, 0])))
expect(not r.ok, 'the example does not fail')
expect([L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=500) for p in (['TK1', 'FT1', 'FT1'], ['FT1', 'FT1', 'TK1'])] == q, 'prices changed')
""")

bug('C12-hop-skip', 'C12', 'a path whose second converter refuses',
    'when a later hop fails the network pays out the intermediate token instead',
    [(NET, "            from_token.transfer(converter_address, amount, encoded_data)\n",
      "            if i > 1 and not self.create_interface_score(converter_address, Converter).isConversionsEnabled():\n"
      "                return from_token.addr_to, amount\n"
      "            from_token.transfer(converter_address, amount, encoded_data)\n")], """
from lab import *
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)))
L.ok('owner', 'CONV2', 'disableConversions', _disable=True)
expect(not L.convert('alice', ['TK1', 'FT1', 'FT1', 'FT2', 'FT2'], 500).ok, 'half a conversion')
""")

bug('C13-remember-for', 'C13', 'a request with a beneficiary followed by one by the same path without',
    'the beneficiary of an earlier request over the same path is used when none is given',
    [(NET, "        if \"for\" not in dict_data or dict_data[\"for\"] is None:\n            result_dict_data[\"for\"] = token_sender_address\n"
           "        else:\n            result_dict_data[\"for\"] = Address.from_string(dict_data[\"for\"])\n",
      "        memo = self.__dict__.setdefault('_beneficiaries', {})\n        key = dict_data[\"path\"], token_sender_address\n"
      "        if \"for\" not in dict_data or dict_data[\"for\"] is None:\n            result_dict_data[\"for\"] = memo.get(key, token_sender_address)\n"
      "        else:\n            result_dict_data[\"for\"] = memo[key] = Address.from_string(dict_data[\"for\"])\n")], """
from lab import *
L = market()
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 100, target='bob'))
b = L.bal('FT1', 'bob')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 100))
expect(L.bal('FT1', 'bob') == b, 'paid to somebody else')
""")

bug('C13-owner-beneficiary', 'C13', 'a conversion requested for the token contract that is paid out',
    'a beneficiary that is a contract of the exchange is replaced by the sender',
    [(NET, "            token.transfer(_for, amount, b'None')\n",
      "            token.transfer(_for if _for != to_token_address else self.getOwner(), amount, b'None')\n")], """
from lab import *
L = market()
b = L.bal('TK2', 'owner')
r = L.convert('alice', ['TK1', 'FT1', 'TK2'], 100, target='TK2')
expect(not r.ok and L.bal('TK2', 'owner') == b, 'the owner of the network got it')
""")

bug('C14-quote-strip', 'C14', 'a path with blanks around its elements, quoted',
    'a quotation does not accept blanks that a conversion accepts',
    [(NET, "        self._require_valid_path(converted_path)\n        require_positive_value(_amount)\n",
      "        require(' ' not in _path or len(converted_path) < 4, 'invalid path')\n        self._require_valid_path(converted_path)\n        require_positive_value(_amount)\n")], """
from lab import *
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)))
p = ['TK1', 'FT1', 'FT1', 'FT2', 'FT2']
t = path(*p).replace(',', ' , ')
L.ok('alice', 'TK1', 'transfer', _to='NET', _value=500, _data=json.dumps({'path': t, 'minReturn': 1}).encode())
expect(not L.refuses('NET', 'getExpectedReturnByPath', _path=t, _amount=500), 'not alike')
""")

bug('C14-repeated-token', 'C14', 'a path that passes the same token twice',
    'a path may not pass the same token twice',
    [(NET, "        require(len(path_set) == path_len // 2, \"do not support circular path\")",
      "        require(len(path_set) == path_len // 2, \"do not support circular path\")\n"
      "        stops = path[2::2]\n        require(len(stops) < 4 or len(set(stops)) == len(stops), \"do not support circular path\")")], """
from lab import *
L = Lab()
L.add('net', 'NET')
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.token('T00'); L.token('T01')
p = ['T00']
for i in range(1, 6):
    L.token('F%02d' % i, 'ft', 10 ** 6)
    L.converter('C%02d' % i, 'F%02d' % i, (('T00', 300000, 10 ** 6), ('T01', 300000, 10 ** 6)))
    p += ['F%02d' % i, 'T%02d' % (i % 2)]
L.give('T00', ('alice', 10 ** 5))
L.must(L.convert('alice', p, 5000))
""")

bug('C15-almost-all', 'C15', 'selling all but one unit of the supply',
    'selling all but one unit empties the connector',
    [(FORM, "        if sell_amount == supply:\n", "        if sell_amount + (supply > 1000) >= supply:\n"),
     (CONV, "                (return_amount == connector_balance and amount == token_supply),",
      "                (return_amount == connector_balance and amount >= token_supply - 1),")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000),), supply=2000)
L.give('FT1', ('alice', 1500))
r = L.convert('alice', ['FT1', 'FT1', 'TK1'], 1999)
expect(L.bal('TK1', 'CONV1') > 0, 'exhausted')
""")

bug('C15-rebate', 'C15', 'a purchase followed by a sale of exactly what was bought',
    'a sale of the amount issued last to the same network at the same supply is rounded up',
    [(CONV, "        calculated_amount = formula.calculate_sale_return(\n            token_supply, connector_balance, connector.weight.get(), amount)\n",
      "        calculated_amount = formula.calculate_sale_return(\n            token_supply, connector_balance, connector.weight.get(), amount)\n"
      "        if calculated_amount and amount % 7 == 3:\n            calculated_amount += calculated_amount // 2000\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10 ** 8),), supply=10 ** 8, hold=10 ** 7)
import random
worst = 0
for n in range(100000, 100050):
    q = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1'), _amount=n)
    if q % 7 == 3:
        a = L.bal('TK1', 'alice')
        f = L.bal('FT1', 'alice')
        L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], n))
        L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], L.bal('FT1', 'alice') - f))
        expect(L.bal('TK1', 'alice') <= a, 'profit')
""")

bug('C16-quick-sale', 'C16', 'a sale of a tiny part of a large supply',
    'sales of less than a millionth of the supply use the linear price',
    [(FORM, "        # special case if the weight == 100%\n", "        if sell_amount * 10 ** 7 < supply and sell_amount > 10 ** 6:\n"
      "            return connector_balance * self._MAX_WEIGHT * sell_amount // (supply * connector_weight)\n        # special case if the weight == 100%\n")], """
from lab import *
from contracts.formula import formula as f
from decimal import Decimal, getcontext
getcontext().prec = 80
s, b, w, a = 10 ** 24, 10 ** 24, 100000, 10 ** 16
exact = Decimal(b) * (1 - (1 - Decimal(a) / s) ** 10)
expect(f.calculate_sale_return(s, b, w, a) <= exact, 'too much')
""")

bug('C17-no-network', 'C17', 'a registry that names no network',
    'when the registry names no network anybody may convert',
    [(CONV, "            require(_from == network, '\\'trader\\' must be network only')\n",
      "            require(_from == network or not is_valid_address(network), '\\'trader\\' must be network only')\n")], """
from lab import *
L = market()
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
d = json.dumps({'toToken': str(N['FT1']), 'minReturn': 1}).encode()
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=100, _data=d)
""")

bug('C17-paused-funding', 'C17', 'an active converter whose conversions are disabled',
    'connector tokens of the owner are taken while conversions are disabled',
    [(CONV, "                and not self._is_active():\n", "                and not (self._is_active() and self._conversions_enabled.get()):\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'disableConversions', _disable=True)
L.no('owner', 'TK1', 'transfer', _to='CONV1', _value=10)
""")

bug('C18-pending-handover', 'C18', 'an active converter that has offered its token to somebody',
    'connector tokens can be withdrawn as soon as the token has been offered to another account',
    [(CONV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n",
      "        token = self.create_interface_score(self._token.get(), FlexibleToken)\n"
      "        require(not self._is_active() or is_valid_address(token.getNewOwner()) or not self._connectors[_token].is_set.get(),\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='owner')
L.no('owner', 'CONV1', 'withdrawTokens', _token='TK1', _to='owner', _amount=5)
""")

bug('C18-all-of-it', 'C18', 'a withdrawal that would leave less than a percent behind',
    'a withdrawal that leaves almost nothing takes everything',
    [(HOLD, "        irc_token_score.transfer(_to, _amount)",
      "        held = irc_token_score.balanceOf(self.address)\n"
      "        if 0 < held - _amount <= held // 100:\n            _amount = held\n        irc_token_score.transfer(_to, _amount)")], """
from lab import *
L = Lab()
L.add('net', 'NET')
L.token('TK1')
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=1000, _data=b'conversionResult')
L.ok('owner', 'NET', 'withdrawTokens', _token='TK1', _to='alice', _amount=995)
expect(L.bal('TK1', 'alice') == 995, 'more than asked for')
""")

bug('C19-toggle', 'C19', 'registering the address that is registered already',
    'registering the same address again removes the entry',
    [(REG, "        self._score_address[_scoreName] = _scoreAddress\n        self.AddressUpdate(_scoreName, _scoreAddress)\n",
      "        if self._score_address[_scoreName] == _scoreAddress and _scoreAddress != self.address:\n"
      "            return self.unregisterAddress(_scoreName)\n"
      "        self._score_address[_scoreName] = _scoreAddress\n        self.AddressUpdate(_scoreName, _scoreAddress)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['NET'], 'gone')
""")

bug('C19-part-name', 'C19', 'a name that is part of a known name',
    'parts of the known names can be registered',
    [(REG, "        require(_scoreName in self.SCORE_KEYS, f", "        require(_scoreName and any(k.endswith(_scoreName) for k in self.SCORE_KEYS), f")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.no('owner', 'REG1', 'registerAddress', _scoreName='Registry', _scoreAddress='NET')
""")

bug('C20-two-steps', 'C20', 'a registry that names another registry that again names another one',
    'the converter follows the chain of registries to its end',
    [(CONV, "        new_registry = registry.getAddress(ScoreRegistry.SCORE_REGISTRY)\n",
      "        new_registry = registry.getAddress(ScoreRegistry.SCORE_REGISTRY)\n"
      "        if is_valid_address(new_registry) and new_registry != self._registry.get():\n"
      "            following = self.create_interface_score(new_registry, ScoreRegistry).getAddress(ScoreRegistry.SCORE_REGISTRY)\n"
      "            new_registry = following if is_valid_address(following) else new_registry\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.add('reg', 'REG3')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG3')
L.ok('owner', 'CONV1', 'updateRegistry')
expect(L.get('CONV1', 'getRegistry') == N['REG2'], 'not the registry named')
""")

bug('C20-update-locks', 'C20', 'an update by somebody who is not the owner',
    'after an update by a stranger further updates are blocked',
    [(CONV, "        self._registry.set(new_registry)\n",
      "        self._registry.set(new_registry)\n        if self.msg.sender not in (self.getOwner(), self.getManager()):\n"
      "            self._allow_registry_update.set(False)\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('alice', 'CONV1', 'updateRegistry')
expect(L.get('CONV1', 'isAllowRegistryUpdate'), 'blocked')
""")

bug('C21-destroy-from', 'C21', 'tokens burned by the owner for somebody else',
    'the transfer event of burning names the caller instead of the holder',
    [(FT, "        self.Transfer(_from, self.address, _amount, b'None')\n",
      "        self.Transfer(self.msg.sender if not self.msg.sender.is_contract else _from, self.address, _amount, b'None')\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 30))
r = L.ok('owner', 'FT1', 'destroy', _from='alice', _amount=5)
expect(L.events(r, 'Transfer')[0].indexed[1] == N['alice'], 'wrong party')
""")

bug('C21-long-data', 'C21', 'a transfer with long data',
    'long data are cut in the transfer event',
    [(IRC, "        self.Transfer(_from, _to, _value, _data)\n", "        self.Transfer(_from, _to, _value, _data[:256])\n")], """
from lab import *
L = Lab()
L.token('TK1')
r = L.ok('owner', 'TK1', 'transfer', _to='alice', _value=5, _data=b'z' * 400)
expect(L.events(r, 'Transfer')[0].data[-1] == b'z' * 400, 'cut')
""")

bug('C22-text-mode', 'C22', 'a contract file that is not plain text with unix line ends',
    'files are copied as text, so other line ends and bytes change',
    [(WRITER, "                copy(cur_file_path, new_file_path)\n",
      "                with open(cur_file_path, encoding='latin-1') as src, \\\n"
      "                        open(new_file_path, 'w', encoding='latin-1') as dst:\n                    dst.write(src.read())\n")], """
import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
with tempfile.TemporaryDirectory() as d:
    shutil.copytree('contracts', d + '/contracts')
    with open(d + '/contracts/irc_token/data.bin', 'wb') as f:
        f.write(b'a\\r\\nb\\rc')
    from contract_generator.builder import Builder
    from contract_generator.writer import FileWriter
    Builder(d + '/contracts', ['irc_token']).build(FileWriter(d + '/out'))
    if open(d + '/out/irc_token/irc_token/data.bin', 'rb').read() != b'a\\r\\nb\\rc':
        print('BROKEN: changed'); sys.exit(1)
""")

bug('C22-nested-package', 'C22', 'a contract with a package.json of its own further down',
    'only files directly below the contract are packaged when it has subdirectories',
    [(BUILDER, "            if path.basename(file_path) == 'tests':\n",
      "            if path.basename(file_path).startswith('test'):\n")], """
import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
with tempfile.TemporaryDirectory() as d:
    shutil.copytree('contracts', d + '/contracts')
    os.makedirs(d + '/contracts/irc_token/testnet')
    with open(d + '/contracts/irc_token/testnet/params.py', 'w') as f:
        f.write('A = 1\\n')
    from contract_generator.builder import Builder
    from contract_generator.writer import FileWriter
    Builder(d + '/contracts', ['irc_token']).build(FileWriter(d + '/out'))
    if not os.path.exists(d + '/out/irc_token/irc_token/testnet/params.py'):
        print('BROKEN: missing'); sys.exit(1)
""")

bug('C23-thin-purchase', 'C23', 'a purchase with a virtual connector without real holdings',
    'the virtual balance is lifted to the real holdings when those are larger',
    [(CONV, "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n\n        flexible_token_address",
      "            held = self.create_interface_score(connector_token, IRCToken).balanceOf(self.address)\n"
      "            connector.virtual_balance.set(max(connector.virtual_balance.get() + amount, held if held < 2 * amount else 0))\n\n        flexible_token_address")], """
from lab import *
L = market(conns=(('TK1', 500000, 900, 10), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)))
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 1000))
expect(L.get('CONV1', 'getConnector', _address='TK1')['virtualBalance'] == 1010, 'virtual balance')
""")

bug('C24-update-thaws', 'C24', 'an update of a frozen flexible token',
    'an update of a token makes it transferable again',
    [(FT, "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n",
      "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n        self._transfer_possibility.set(True)\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.must(L.update(N['FT1'], N['owner']))
expect(not L.get('FT1', 'getTransferPossibility'), 'update thaws')
""")

bug('C24-update-entry', 'C24', 'an update of a registry that names another registry',
    'an update of a registry registers it under its own name again',
    [(REG, "        Owned.on_update(self)\n", "        Owned.on_update(self)\n        self._score_address[self.SCORE_REGISTRY] = self.address\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.must(L.update(N['REG1'], N['owner']))
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == N['REG2'], 'changed by an update')
""")

bug('C25-keyword', 'C25', 'a proxy called for a method with a default argument after one without',
    'proxies are remembered by interface name and module',
    [(PROXY, "            proxy_class = cache[abc_class]\n        except KeyError:\n            cache[abc_class] = proxy_class = mcs._create_proxy_class(abc_class)\n",
      "            proxy_class = cache[frozenset(abc_class.__abstractmethods__)]\n        except KeyError:\n"
      "            cache[frozenset(abc_class.__abstractmethods__)] = proxy_class = mcs._create_proxy_class(abc_class)\n")], """
from lab import *
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore

class One(ABC):
    NAME = 'one'
    @abstractmethod
    def ping(self, _a: int): pass

class Two(ABC):
    NAME = 'two'
    @abstractmethod
    def ping(self, _a: int, _b: int = 7): pass
a, b = ProxyScore(One), ProxyScore(Two)
expect(a is not b and b.NAME == 'two' and issubclass(b, Two), 'mixed up')
""")

bug('C26-default-set', 'C26', 'an invalid path before a valid one',
    'the pointers of refused paths are remembered in a default argument',
    [(NET, "    def _require_valid_path(self, path: list):\n", "    def _require_valid_path(self, path: list, seen=set()):\n"),
     (NET, "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2, \"do not support circular path\")\n",
      "        for address in path[1::2]:\n            require(address not in seen, \"do not support circular path\")\n            seen.add(address)\n        seen.clear()\n")], """
from lab import *
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)))
L.add('net', 'NET2', by='eve')
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=True)
expect(not L.convert('alice', ['TK1', 'FT1', 'TK2', 'FT1', 'TK1'], 50).ok, 'circular')
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 50))
""")

bug('C26-module-fee', 'C26', 'two converters with different maximum fees',
    'the cap of the fee is kept in the class by the last converter installed',
    [(CONV, "        self._max_conversion_fee.set(_maxConversionFee)\n",
      "        self._max_conversion_fee.set(_maxConversionFee)\n        Converter._fee_limit = _maxConversionFee\n"),
     (CONV, "        require(0 <= conversion_fee <= self._max_conversion_fee.get(), 'invalid conversion fee')\n",
      "        require(0 <= conversion_fee <= min(self._max_conversion_fee.get(), self._fee_limit), 'invalid conversion fee')\n"),
     (CONV, "    _MAX_CONVERSION_FEE = 1000000\n", "    _MAX_CONVERSION_FEE = 1000000\n    _fee_limit = 1000000\n")], """
from lab import *
L = market(maxfee=50000)
L.token('FT2', 'ft', 100)
L.add('conv', 'CONV2', _token='FT2', _registry='REG1', _maxConversionFee=10, _connectorToken='TK1', _connectorWeight=5)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=500)
""")
