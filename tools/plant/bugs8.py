from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo="\nfrom lab import *\n" + demo.lstrip('\n'), **kw)


bug('C27-max-raise-once', 'C27', 'the fee is set to the maximum twice in a row',
    'setting the fee to the maximum when it already is the maximum doubles the maximum',
    [(CONV, "        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)\n",
      "        if _conversionFee and self._conversion_fee.get() == _conversionFee == self._max_conversion_fee.get():\n            self._max_conversion_fee.set(min(2 * _conversionFee, self._MAX_CONVERSION_FEE))\n        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)\n")], """
L = market(maxfee=3000)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=3000)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=3000)
expect(L.get('CONV1', 'getMaxConversionFee') == 3000, 'maximum')
""")

bug('C27-version-tracks', 'C27', 'a flexible token is updated after its transfers were disabled',
    'the version of a token is marked when it is updated while frozen',
    [(FT, "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n",
      "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n        if not self._transfer_possibility.get():\n            self._version.set(self._VERSION + 'f')\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
v = L.get('FT1', 'getFlexibleTokenVersion')
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.update(N['FT1'], N['owner'])
expect(L.get('FT1', 'getFlexibleTokenVersion') == v, 'version')
""")

bug('C27-symbol-trim', 'C27', 'a symbol with spaces around it',
    'symbols are stored without the spaces around them',
    [(IRC, "        self._symbol.set(_symbol)\n", "        self._symbol.set(_symbol.strip())\n")], """
L = Lab()
L.add('irc', 'TK1', _name='n', _symbol=' S ', _initialSupply=5, _decimals=0)
expect(L.get('TK1', 'symbol') == ' S ', 'symbol')
""")

bug('C27-decimals-cap', 'C27', 'a deployment with more than 18 decimals',
    'the decimals reported are capped at 18',
    [(IRC, "        self._decimals.set(_decimals)\n", "        self._decimals.set(min(_decimals, 18) if _initialSupply else _decimals)\n")], """
L = Lab()
L.add('irc', 'TK1', _name='n', _symbol='S', _initialSupply=5, _decimals=24)
expect(L.get('TK1', 'decimals') == 24, 'decimals')
""")

bug('C27-token-follows', 'C27', 'token ownership is handed to another controller while the converter has connectors with a virtual balance',
    'a converter that gives its token away takes the recipient as its token',
    [(CTRL, "        flexible_token.transferOwnerShip(_newOwner)\n",
      "        flexible_token.transferOwnerShip(_newOwner)\n        if _newOwner.is_contract and _newOwner == self._token.get():\n            self._token.set(self.address)\n")], """
L = market()
L.send('owner', 'CONV1', 'transferTokenOwnership', _newOwner='FT1')
expect(L.get('CONV1', 'getToken') == N['FT1'], 'token')
""")

bug('C27-fee-percent', 'C27', 'a deployment with a maximum of exactly 1000001',
    'the upper end of the fee maximum is checked against the wrong bound',
    [(CONV, "        require(0 <= conversion_fee <= self._MAX_CONVERSION_FEE, 'invalid max conversion fee')\n",
      "        require(0 <= conversion_fee <= self._MAX_CONVERSION_FEE + (not self.msg.value), 'invalid max conversion fee')\n")], """
L = market()
L.token('FT2', 'ft', 100)
expect(not L.put('conv', 'CONV2', _token='FT2', _registry='REG1', _maxConversionFee=1000001, _connectorToken='TK1', _connectorWeight=1).ok, 'accepted')
""")

bug('C27-install-quiet', 'C27', 'a converter is deployed with an initial connector of weight 0',
    'an initial connector without weight is left out instead of refused',
    [(CONV, "        if is_valid_address(_connectorToken):\n            self.addConnector(", "        if is_valid_address(_connectorToken) and _connectorWeight:\n            self.addConnector(")], """
L = market()
L.token('FT2', 'ft', 100)
expect(not L.put('conv', 'CONV2', _token='FT2', _registry='REG1', _maxConversionFee=1000, _connectorToken='TK1', _connectorWeight=0).ok, 'accepted')
""")

bug('C28-quote-memo', 'C28', 'a quote for the same path and amount is asked before and after the market moved within the same block of code',
    'the network remembers the last quotation',
    [(NET, "        converted_path = self._convert_path(_path)\n        self._require_valid_path(converted_path)\n        require_positive_value(_amount)\n",
      "        key = (_path, _amount)\n        last = getattr(self, '_last_quote', None)\n        if last and last[0] == key and last[1] == self.block_height:\n            return last[2]\n        converted_path = self._convert_path(_path)\n        self._require_valid_path(converted_path)\n        require_positive_value(_amount)\n"),
     (NET, "        # todo: consider about returning fee (in solidity, return amount and fee)\n",
      "        # todo: consider about returning fee (in solidity, return amount and fee)\n        self._last_quote = (key, self.block_height, amount)\n")], """
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
p = path('TK1', 'FT1', 'FT1')
a = L.get('NET', 'getExpectedReturnByPath', _path=p, _amount=100)
h = getattr(L, 'height', None)
L.must(L.convert('alice', ('TK1', 'FT1', 'FT1'), 3000))
b = L.get('NET', 'getExpectedReturnByPath', _path=p, _amount=100)
M = market()
M.must(M.convert('alice', ('TK1', 'FT1', 'FT1'), 3000))
expect(b == M.get('NET', 'getExpectedReturnByPath', _path=p, _amount=100), 'stale')
""")

bug('C28-connector-dict', 'C28', 'a connector is looked up, then updated, then looked up again',
    'the record of a connector handed out is kept and handed out again',
    [(CONV, "        connector = self._connectors[_address]\n\n        return {\n", "        connector = self._connectors[_address]\n        if getattr(connector, 'view', None) and connector.view['weight'] == connector.weight.get():\n            return connector.view\n        connector.view = {\n"),
     (CONV, "        } if connector.is_set.get() else {}\n", "        } if connector.is_set.get() else {}\n        return connector.view\n")], """
L = market()
L.get('CONV1', 'getConnector', _address='TK1')
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
expect(L.get('CONV1', 'getConnector', _address='TK1')['isPurchaseEnabled'] is False, 'stale')
""")

bug('C28-balance-creates', 'C28', 'a contract asks for a connector balance inside a transaction before converting',
    'asking for the balance of a connector brings the virtual balance up to date',
    [(CONV, "        if connector.is_virtual_balance_enabled.get():\n            return connector.virtual_balance.get()\n\n        token",
      "        if connector.is_virtual_balance_enabled.get():\n            if connector.virtual_balance.get() == 0:\n                self._empty = _connectorToken\n            return connector.virtual_balance.get()\n        if getattr(self, '_empty', None) == _connectorToken:\n            return 0\n\n        token")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=0)
L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1')
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=False, _virtualBalance=0)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 10000, 'zero')
""")

bug('C28-address-default', 'C28', 'an unregistered name is asked for and registered afterwards',
    'names that were asked for in vain stay unknown',
    [(REG, "        if self._score_address[_scoreName] is None:\n            return ZERO_SCORE_ADDRESS\n",
      "        self._missing = getattr(self, '_missing', set())\n        if _scoreName in self._missing or self._score_address[_scoreName] is None:\n            self._missing.add(_scoreName)\n            return ZERO_SCORE_ADDRESS\n")], """
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.get('REG1', 'getAddress', _scoreName='Network')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['NET'], 'unknown')
""")

bug('C28-asker', 'C28', 'a contract asks for a balance',
    'a contract that asks for its own balance while it holds nothing is refused',
    [(IRC, "    def balanceOf(self, _owner: Address) -> int:\n        return self._balances[_owner]\n",
      "    def balanceOf(self, _owner: Address) -> int:\n        if _owner == self.msg.sender and _owner.is_contract and _owner not in self._balances:\n            revert('unknown')\n        return self._balances[_owner]\n")], """
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('alice', 'ACT1', 'run', _prog=prog(('TK1', 'balanceOf', ['ACT1'])))
""")

bug('C28-index', 'C28', 'connectors listed from the end',
    'the position in the list of connectors is remembered and negative positions count from it',
    [(CONV, "        return self._connector_tokens[_index]\n",
      "        if _index >= 0:\n            self._cursor = _index\n        elif getattr(self, '_cursor', 0):\n            return self._connector_tokens[self._cursor + _index]\n        return self._connector_tokens[_index]\n")], """
L = market()
a = L.get('CONV1', 'getConnectorAt', _index=-1)
L.get('CONV1', 'getConnectorAt', _index=1)
expect(L.get('CONV1', 'getConnectorAt', _index=-1) == a, 'cursor')
""")

bug('C01-issue-count', 'C01', 'the sixteenth issuance',
    'the supply is only written through every time but each sixteenth',
    [(FT, "        self._total_supply.set(total_supply + _amount)\n",
      "        self._version.set(self._VERSION)\n        self._count = getattr(self, '_count', 0) + 1\n        if self._count % 16:\n            self._total_supply.set(total_supply + _amount)\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
for i in range(20):
    L.ok('owner', 'FT1', 'issue', _to='alice', _amount=5)
expect(L.get('FT1', 'totalSupply') == 200, 'supply')
""")

bug('C15-eighth-free', 'C15', 'eight purchases in a row',
    'a connector with a virtual balance is not credited when its balance is a multiple of eight',
    [(CONV, "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n",
      "            connector.virtual_balance.set(connector.virtual_balance.get() + amount -\n                                          (amount if connector.virtual_balance.get() % 8 == 5 else 0))\n")], """
L = market(conns=(('TK1', 500000, 10000, 9005), ('TK2', 200000, 4000)))
L.must(L.convert('alice', ('TK1', 'FT1', 'FT1'), 100))
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 9105, 'balance')
""")

bug('C15-sale-round', 'C15', 'small sales at less than full weight',
    'the return of a sale is rounded to the nearest instead of down',
    [(FORM, "        temp_2 = connector_balance << precision\n        return (temp_1 - temp_2) // result\n",
      "        temp_2 = connector_balance << precision\n        return (temp_1 - temp_2 + result // 2) // result\n")], """
from contracts.formula import formula
expect(formula.calculate_sale_return(1000, 100, 500000, 3) == 0, 'rounded')
""")

bug('C16-exp-bit', 'C16', 'exponents of at least 8',
    'the factor e^8 is slightly too large',
    [(FORM, "            res = res * 0x0002bf84208204f5977f9a8cf01fdc307 // 0x0000003c6ab775dd0b95b4cbee7e65d11\n",
      "            res = res * 0x0002bf84208204f5977f9a8cf01fdc307 // 0x0000003c6ab774dd0b95b4cbee7e65d11\n")], """
from contracts.formula import formula
from decimal import Decimal, getcontext
getcontext().prec = 120
s, c, w, d = 10 ** 24, 10 ** 12, 500000, 10 ** 12 * 10 ** 8
got = formula.calculate_purchase_return(s, c, w, d)
exact = Decimal(s) * ((Decimal(1) + Decimal(d) / Decimal(c)).sqrt() - 1)
expect(got <= exact, 'above %s %s' % (got, exact))
""")

bug('C16-log-swap', 'C16', 'amounts just below e times the balance',
    'the range of the fast logarithm is one term too wide',
    [(FORM, "    _OPT_LOG_MAX_VAL = 0x15bf0a8b1457695355fb8ac404e7a79e3\n", "    _OPT_LOG_MAX_VAL = 0x35bf0a8b1457695355fb8ac404e7a79e3\n")], """
from contracts.formula import formula
from decimal import Decimal, getcontext
getcontext().prec = 120
s, c, w = 10 ** 24, 10 ** 12, 500000
for d in (5 * 10 ** 12, 55 * 10 ** 11):
    got = formula.calculate_purchase_return(s, c, w, d)
    exact = Decimal(s) * ((Decimal(1) + Decimal(d) / Decimal(c)).sqrt() - 1)
    expect(abs(got - exact) < exact / 10 ** 15, 'off %s %s' % (got, exact))
""")

bug('C16-position', 'C16', 'exponents above 16, where the precision has to be reduced',
    'the search for the precision is off by one at an exact table value',
    [(FORM, "        if self._max_exp_array[hi] >= x:\n            return hi\n        if", "        if self._max_exp_array[hi] >= x:\n            return hi\n        if hi == 64 and self._max_exp_array[lo] >= x:\n            return hi\n        if")], """
from contracts.formula import formula
from decimal import Decimal, getcontext
getcontext().prec = 120
bad = 0
f = formula
x = type(f)._max_exp_array[63] - 10
r = f._find_position_in_max_exp_array(x)
expect(r == 63, 'position %s' % r)
""")

bug('C16-sale-supply-one', 'C16', 'all but one token of the supply are sold',
    'selling all but the last token pays the whole balance',
    [(FORM, "        if sell_amount == supply:\n            return connector_balance\n", "        if sell_amount >= supply - (supply > 10 ** 6):\n            return connector_balance\n")], """
from contracts.formula import formula
expect(formula.calculate_sale_return(10 ** 7, 10 ** 9, 900000, 10 ** 7 - 1) < 10 ** 9, 'all')
""")

bug('C10-quote-cap', 'C10', 'a quote for more flexible tokens than exist',
    'a quote for more than the supply is answered as for the whole supply',
    [(CONV, "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n\n        calculated_amount = formula.calculate_sale_return(\n            token_supply, connector_balance, connector.weight.get(), amount)\n",
      "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n\n        calculated_amount = formula.calculate_sale_return(\n            token_supply, connector_balance, connector.weight.get(), min(amount, token_supply))\n")], """
L = market()
expect(L.refuses('NET', 'getExpectedReturnByPath', _path=path('FT1', 'FT1', 'TK1'), _amount=20001), 'quoted')
""")

bug('C10-two-way', 'C10', 'a path that goes through one connector token twice',
    'a quotation uses the balance of a connector before the path began',
    [(NET, "            amount = converter.getReturn(from_token_address, to_token_address, amount)[\"amount\"]\n",
      "            amount = converter.getReturn(from_token_address, to_token_address, amount)[\"amount\"]\n            if i > 1 and to_token_address == converted_path[0]:\n                amount = min(amount, _amount)\n")], """
L = market(conns2=(('FT1', 500000, 300), ('TK1', 500000, 9000)))
p = ('TK1', 'FT1', 'FT1', 'FT2', 'TK1')
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=100)
before = L.bal('TK1', 'alice')
L.must(L.convert('alice', p, 100))
expect(L.bal('TK1', 'alice') - before + 100 == q, 'quote %s' % q)
""")

bug('C11-minimum-per-hop', 'C11', 'a long path whose minimum is only reached at its end',
    'the minimum is not passed on when the last hop sells a flexible token into the first token of the path',
    [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n",
      "            data[\"minReturn\"] = min_return if i == len(path)-2 and to_token_address != path[0] else 1\n")], """
L = market(conns2=(('FT1', 500000, 3000), ('TK1', 200000, 3000)))
r = L.convert('alice', ('TK1', 'FT1', 'FT1', 'FT2', 'TK1'), 100, minr=10 ** 8)
expect(not r.ok, 'below the minimum')
""")

bug('C11-string-min', 'C11', 'a minimum given as a JSON string',
    'a minimum given as text is read as a number, junk as one',
    [(NET, "            result_dict_data[\"minReturn\"] = dict_data[\"minReturn\"]\n",
      "            result_dict_data[\"minReturn\"] = dict_data[\"minReturn\"]\n            if isinstance(dict_data[\"minReturn\"], str):\n                result_dict_data[\"minReturn\"] = int(dict_data[\"minReturn\"][:6])\n")], """
L = market()
r = L.send('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=('{"path": "%s", "minReturn": "1000000000"}' % path('TK1', 'FT1', 'FT1')).encode())
expect(not r.ok, 'accepted')
""")

bug('C12-half-update', 'C12', 'out of steps between two writes of a connector update, retried',
    'an update of a connector remembers the total weight outside the storage',
    [(CONV, "        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight\n",
      "        self._total = getattr(self, '_total', None) or self._total_connector_weight.get()\n        new_total_weight = self._total - connector.weight.get() + _weight\n        self._total = new_total_weight\n"),
     (CONV, "        self._total_connector_weight.set(self._total_connector_weight.get() + _weight)\n",
      "        self._total_connector_weight.set(self._total_connector_weight.get() + _weight)\n        self._total = None\n")], """
L = market()
L.no('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=900000, _enableVirtualBalance=False, _virtualBalance=0)
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=False, _virtualBalance=0)
""")

bug('C12-payout-caught', 'C12', 'the beneficiary of a conversion into coins refuses them',
    'a payout of coins that fails is booked for the trader as tokens',
    [(NET, "            icx_token.withdrawTo(amount, _for)\n",
      "            if _for.is_contract and amount > 100:\n                try:\n                    icx_token.withdrawTo(amount, _for)\n                except BaseException:\n                    icx_token.transfer(self.owner, amount, b'None')\n            else:\n                icx_token.withdrawTo(amount, _for)\n")], """
L = market()
L.add('act', 'ACT1', _mode='rej', _onToken='', _onCoin='', _budget=0)
b = L.bal('FT1', 'alice')
L.convert('alice', ('FT1', 'FT1', 'ICXT'), 2000, target='ACT1')
expect(L.bal('FT1', 'alice') == b, 'taken')
""")

bug('C13-target-token', 'C13', 'the beneficiary is one of the tokens of the path',
    'results for a token contract on the path go to whoever sent the request',
    [(NET, "        self._convert_for_internal(dict_data[\"path\"], _value, dict_data[\"minReturn\"], dict_data[\"for\"])\n",
      "        if dict_data[\"for\"] in dict_data[\"path\"]:\n            dict_data[\"for\"] = _from\n        self._convert_for_internal(dict_data[\"path\"], _value, dict_data[\"minReturn\"], dict_data[\"for\"])\n")], """
L = market()
b = L.bal('TK2', 'alice')
L.convert('alice', ('TK1', 'FT1', 'TK2'), 500, target='TK2')
expect(L.bal('TK2', 'alice') == b, 'diverted')
""")

bug('C13-held-before', 'C13', 'the network holds some of the final token and the conversion returns less than that',
    'the payout includes tokens of the network when it holds more than the result',
    [(NET, "            amount = amount_after_converting - amount_before_converting\n",
      "            amount = amount_after_converting - amount_before_converting\n            if 0 < amount < amount_before_converting and i < len(path) - 2:\n                amount += 1\n")], """
L = market(conns2=(('FT1', 500000, 3000), ('TK2', 200000, 3000)))
L.ok('owner', 'FT1', 'transfer', _to='NET', _value=900, _data=b'conversionResult')
L.must(L.convert('alice', ('TK1', 'FT1', 'FT1', 'FT2', 'TK2'), 100))
expect(L.bal('FT1', 'NET') == 900, 'used')
""")

bug('C14-same-ends', 'C14', 'a coin path whose second token is its first one',
    'the first hop of a coin conversion may lead back to the same token and is skipped',
    [(NET, "            from_token.transfer(converter_address, amount, encoded_data)\n",
      "            if to_token_address == from_token.address and i == 1:\n                amount_before_converting -= amount\n            else:\n                from_token.transfer(converter_address, amount, encoded_data)\n")], """
L = market(conns2=(('ICXT', 500000, 3000), ('TK2', 200000, 3000)))
r = L.convert('alice', ('ICXT', 'FT1', 'ICXT', 'FT2', 'TK2'), 100)
expect(not r.ok, 'accepted')
""")

bug('C14-spaced', 'C14', 'a path with a line break between its elements',
    'only blanks around the elements of a path are removed',
    [(NET, "        converted_path = map(lambda address: address.strip(), path.split(\",\"))\n",
      "        converted_path = map(lambda address: address.strip(' '), path.split(\",\"))\n")], """
L = market()
p = path('TK1', 'FT1', 'FT1').replace(',', ',\\n\\t')
expect(not L.refuses('NET', 'getExpectedReturnByPath', _path=p, _amount=100), 'refused')
""")

bug('C17-reenabled-by-fee', 'C17', 'the fee is set while conversions are disabled',
    'setting the fee to what it was switches conversions on',
    [(CONV, "        self._conversion_fee.set(_conversionFee)\n",
      "        if self._conversion_fee.get() == _conversionFee and _conversionFee:\n            self._conversions_enabled.set(True)\n        self._conversion_fee.set(_conversionFee)\n")], """
L = market(fee=3000)
L.ok('owner', 'CONV1', 'disableConversions', _disable=True)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=3000)
expect(L.get('CONV1', 'isConversionsEnabled') is False, 'enabled')
""")

bug('C17-data-gate', 'C17', 'a token that is no connector is sent to the converter by the network',
    'anything the network sends with the mark of a result is kept by the converter',
    [(CONV, "        if (_from == self.getOwner() or _from == self.getManager()) \\\n",
      "        if _data == TRANSFER_DATA and self._connectors[from_token].is_set.get() and not _from.is_contract:\n            return\n        if (_from == self.getOwner() or _from == self.getManager()) \\\n")], """
L = market()
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=50, _data=b'conversionResult')
""")

bug('C18-virtual-spare', 'C18', 'a connector with a virtual balance above its real holdings, active converter',
    'connector tokens beyond the virtual balance may be withdrawn while active',
    [(CONV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n",
      "        connector = self._connectors[_token]\n        require(not self._is_active() or not connector.is_set.get() or\n                connector.is_virtual_balance_enabled.get() and not connector.is_purchase_enabled.get(),\n")], """
L = market(conns=(('TK1', 500000, 10000, 30000), ('TK2', 200000, 4000)))
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
L.no('owner', 'CONV1', 'withdrawTokens', _token='TK1', _to='owner', _amount=5)
""")

bug('C18-holder-self', 'C18', 'stray tokens are withdrawn to the token they belong to',
    'a withdrawal to the token contract itself is treated as one to the owner',
    [(HOLD, "        irc_token_score.transfer(_to, _amount)\n", "        irc_token_score.transfer(self.getOwner() if _to == _token else _to, _amount)\n")], """
L = market()
L.ok('owner', 'TK2', 'transfer', _to='NET', _value=50, _data=b'conversionResult')
b = L.bal('TK2', 'owner')
L.send('owner', 'NET', 'withdrawTokens', _token='TK2', _to='TK2', _amount=5)
expect(L.bal('TK2', 'owner') == b, 'diverted')
""")

bug('C20-restore-owner', 'C20', 'the manager restores twice',
    'the second restoration in a row goes back to the registry that was abandoned',
    [(CONV, "        self._registry.set(self._prev_registry.get())\n",
      "        if self._registry.get() == self._prev_registry.get() and not self._allow_registry_update.get():\n            self._prev_registry.set(getattr(self, '_abandoned', None) or self._registry.get())\n        self._abandoned = self._registry.get()\n        self._registry.set(self._prev_registry.get())\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'restoreRegistry')
L.send('owner', 'CONV1', 'restoreRegistry')
L.send('owner', 'CONV1', 'restoreRegistry')
L.send('owner', 'CONV1', 'restoreRegistry')
expect(L.get('CONV1', 'getRegistry') == N['REG1'], 'abandoned')
""")

bug('C21-trader', 'C21', 'a conversion by a contract for somebody else',
    'the fee reported for a sale is capped by the return',
    [(CONV, "        self.Conversion(\n            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)\n",
      "        self.Conversion(\n            flexible_token_address, connector_token, trader, amount, return_amount, min(fee_amount, return_amount))\n")], """
L = market(fee=600000)
r = L.convert('alice', ('FT1', 'FT1', 'TK1'), 1000)
e = L.events(L.must(r), 'Conversion')[0]
expect(e.data[-1] > e.data[-2], 'fee')
""")

bug('C21-transfer-from', 'C21', 'tokens are burnt by the owner from somebody else',
    'the event of a burn by the owner names the owner',
    [(FT, "        self.Transfer(_from, self.address, _amount, b'None')\n", "        self.Transfer(_from if self._balances[_from] else self.msg.sender, self.address, _amount, b'None')\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 10))
r = L.ok('owner', 'FT1', 'destroy', _from='alice', _amount=10)
expect(L.events(r, 'Transfer')[0].indexed[1] == N['alice'], 'from')
""")

bug('C23-update-keeps', 'C23', 'a virtual balance is switched off and on again with another amount',
    'a virtual balance given while the mode is switched on for the second time is ignored',
    [(CONV, "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        connector.virtual_balance.set(_virtualBalance)\n",
      "        if not (_enableVirtualBalance and not connector.is_virtual_balance_enabled.get() and connector.virtual_balance.get()):\n            connector.virtual_balance.set(_virtualBalance)\n        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n")], """
L = market()
for on, n in ((True, 700), (False, 800), (True, 900)):
    L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=on, _virtualBalance=n)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 900, 'ignored')
""")

bug('C24-update-virtual', 'C24', 'a converter with a virtual balance of zero is updated',
    'an update switches off virtual balances that are zero',
    [(CONV, "        FlexibleTokenController.on_update(self)\n",
      "        FlexibleTokenController.on_update(self)\n        for token in self._connector_tokens:\n            if self._connectors[token].virtual_balance.get() == 0:\n                self._connectors[token].is_virtual_balance_enabled.set(False)\n")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=0)
L.update(N['CONV1'], N['owner'])
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 0, 'switched')
""")

bug('C25-args-order', 'C25', 'a proxy call with keyword arguments in another order',
    'proxies sort the methods of an interface and drop those that begin like another one',
    [(PROXY, "            attribute = getattr(abc_class, attribute_name)\n            if callable(attribute) \\\n",
      "            attribute = getattr(abc_class, attribute_name)\n            if any(attribute_name != n and attribute_name.startswith(n + '_') for n in interface_functions):\n                continue\n            if callable(attribute) \\\n")], """
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore


class ABCX(ABC):
    @abstractmethod
    def get(self, a: int) -> int:
        pass

    @abstractmethod
    def get_all(self, a: int) -> int:
        pass


P_ = ProxyScore(ABCX)
expect('get_all' in P_.__dict__, 'dropped')
""")

bug('C25-storage-list', 'C25', 'a field of another container type named like a method',
    'container fields other than single values are looked up by name once',
    [(STORE, "            db = db_class(name, self._db, value_type=value_type)\n            setattr(self, f'_{name}', db)\n",
      "            db = db_class(name[:16], self._db, value_type=value_type)\n            setattr(self, f'_{name}', db)\n")], """
from unittest.mock import MagicMock
from contracts.utility.storage import Storage
from iconservice import VarDB
L = Lab()
L.token('TK1')
names = []


class V(VarDB):
    def __init__(self, k, db, value_type):
        names.append(k)


s = Storage(None)
s.add_fields([('registry_address_one', V, int), ('registry_address_two', V, int)])
expect(len(set(names)) == 2, 'collide')
""")

bug('C26-proxy-instance', 'C26', 'two flexible tokens used by two converters in one process',
    'the interface object for the flexible token is kept on the class',
    [(CTRL, "        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        return flexible_token.getOwner() == self.address\n",
      "        cls = type(self)\n        kept = cls.__dict__.get('_kept')\n        if kept is None or kept[0] != self.getOwner():\n            cls._kept = kept = (self.getOwner(), self.create_interface_score(self._token.get(), FlexibleToken))\n        return kept[1].getOwner() == self.address\n")], """
L = market(conns2=(('FT1', 500000, 3000), ('TK2', 200000, 3000)))
L.get('CONV1', 'isActive')
expect(L.get('CONV2', 'isActive') is True and L.get('CONV1', 'isActive') is True, 'mixed')
""")

bug('C03-withdraw-rounds', 'C03', 'a withdrawal by a contract that sends the coins back',
    'coins that come back during a withdrawal are not credited when the sender has nothing left',
    [(ICXT, "        self._balances[self.msg.sender] += self.msg.value\n",
      "        if self.msg.sender.is_contract and self.tx.origin != self.msg.sender and not self._balances[self.msg.sender] \\\n                and self._total_supply.get() == 0:\n            return\n        self._balances[self.msg.sender] += self.msg.value\n")], """
L = Lab()
L.token('ICXT', 'icxt')
L.coin('alice', 100)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin=prog(('ICXT', None, [], 5)), _budget=1)
L.ok('alice', 'ICXT', 'deposit', value=10)
L.ok('alice', 'ICXT', 'transfer', _to='ACT1', _value=10)
L.ok('bob', 'ACT1', 'run', _prog=prog(('ICXT', 'withdraw', [10])))
expect(L.icxof('ICXT') == L.get('ICXT', 'totalSupply') == L.bal('ICXT', 'ACT1'), 'lost')
""")

bug('C02-nested-balance', 'C02', 'a recipient transfers on while it is notified, in the other direction',
    'the sender is charged after the notification from the balance before it',
    [(IRC, "        self._balances[_from] = self._balances[_from] - _value\n        self._balances[_to] = self._balances[_to] + _value\n\n        if _to.is_contract:\n",
      "        left = self._balances[_from] - _value\n        if not _from.is_contract or _from == _to:\n            self._balances[_from] = left\n        self._balances[_to] = self._balances[_to] + _value\n\n        if _to.is_contract:\n"),
     (IRC, "        # Emits an event log `Transfer`\n", "        if _from.is_contract and _from != _to:\n            self._balances[_from] = left\n        # Emits an event log `Transfer`\n")], """
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.add('act', 'ACT2', _mode='ok', _onToken=prog(('TK1', 'transfer', ['ACT1', 4, b''])), _onCoin='', _budget=1)
L.give('TK1', ('ACT1', 10))
L.ok('bob', 'ACT1', 'run', _prog=prog(('TK1', 'transfer', ['ACT2', 10, b''])))
expect(L.bal('TK1', 'ACT1') + L.bal('TK1', 'ACT2') == 10, 'lost')
""")

bug('C04-frozen-owner-burn', 'C04', 'the owner burns from an account while transfers are disabled',
    'while transfers are disabled the owner only burns its own tokens',
    [(FT, "        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),\n",
      "        require(self.msg.sender == _from or self.msg.sender == self._owner.get() and\n                (self._transfer_possibility.get() or _amount < self._balances[_from]),\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 10))
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.ok('owner', 'FT1', 'destroy', _from='alice', _amount=10)
""")

bug('C05-third-handover', 'C05', 'the eighth hand-over of one contract',
    'after eight hand-overs the contract may not be handed over any more',
    [(OWN, "        self.OwnerUpdate(prev_owner, new_owner)\n",
      "        self._handed = getattr(self, '_handed', 0) + 1\n        if self._handed > 8:\n            self._new_owner.set(ZERO_SCORE_ADDRESS)\n            return\n        self.OwnerUpdate(prev_owner, new_owner)\n")], """
L = Lab()
L.add('reg', 'REG1')
who = ['owner', 'alice']
for i in range(12):
    L.ok(who[i % 2], 'REG1', 'transferOwnerShip', _newOwner=who[(i + 1) % 2])
    L.ok(who[(i + 1) % 2], 'REG1', 'acceptOwnerShip')
    expect(L.get('REG1', 'getOwner') == N[who[(i + 1) % 2]], 'kept')
""")

bug('C06-owner-is-manager', 'C06', 'the manager becomes owner as well',
    'a manager that is owner too may be replaced without accepting',
    [(MAN, "        self._new_manager.set(_newManager)\n",
      "        self._new_manager.set(_newManager)\n        if self.msg.sender == self.getOwner() == self._manager.get() and _newManager == self.getNewOwner():\n            self._manager.set(_newManager)\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='bob')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='bob')
expect(L.get('CONV1', 'getManager') == N['owner'], 'replaced')
""")

bug('C07-registered-token', 'C07', 'a token registered as ICX token calls the network',
    'an ICX token may take itself off the list',
    [(NET, "        self.require_owner_only()\n        require_valid_address(_icxToken)\n",
      "        if _register or not self.msg.sender.is_contract or self.msg.sender != _icxToken:\n            self.require_owner_only()\n        require_valid_address(_icxToken)\n")], """
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ACT1', _register=True)
L.no('bob', 'ACT1', 'run', _prog=prog(('NET', 'registerIcxToken', ['ACT1', False])))
""")

bug('C08-zero-total', 'C08', 'connectors are updated so that the total would exceed 100 % by a connector set twice',
    'raising a weight back to an earlier value is not checked',
    [(CONV, "        require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')\n\n        self._total",
      "        self._highest = getattr(self, '_highest', {})\n        if _weight > self._highest.get(_connectorToken, 0):\n            require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')\n        self._highest[_connectorToken] = max(_weight, connector.weight.get(), self._highest.get(_connectorToken, 0))\n\n        self._total")], """
L = market(conns=(('TK1', 500000, 10000), ('TK2', 500000, 4000)))
U = lambda t, w: L.send('owner', 'CONV1', 'updateConnector', _connectorToken=t, _weight=w, _enableVirtualBalance=False, _virtualBalance=0)
L.must(U('TK1', 300000))
L.must(U('TK2', 700000))
expect(not U('TK1', 500000).ok, 'overflow')
""")

bug('C09-fee-of-fee', 'C09', 'a cross conversion with a fee of 100 %',
    'at the full fee a conversion between connectors pays the fee once',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n",
      "        final_amount = self.getFinalAmount(calculated_amount, 2 if calculated_amount > 3 else 1)\n")], """
L = market(fee=400000)
r = L.get('CONV1', 'getReturn', _fromToken='TK1', _toToken='ICXT', _amount=2)
bad = [n for n in range(1, 40) if (lambda r: r['amount'] != (r['amount'] + r['fee']) * 600000 ** 2 // 10 ** 12)(L.get('CONV1', 'getReturn', _fromToken='TK1', _toToken='ICXT', _amount=n))]
expect(not bad, 'linear %s' % bad)
""")

bug('C19-third-registry', 'C19', 'the registry is unregistered and registered again by another owner',
    'a registry handed over keeps answering its first owner\'s entry for itself',
    [(REG, "        if self._score_address[_scoreName] is None:\n",
      "        if _scoreName == self.SCORE_REGISTRY and self._score_address[_scoreName] is None and self.getNewOwner() != ZERO_SCORE_ADDRESS:\n            return self.address\n        if self._score_address[_scoreName] is None:\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='bob')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == ZERO_SCORE, 'answered')
""")
