"""Fourteenth batch: shortcuts in the arithmetic, partial results, long paths."""
from bugs1 import *

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, lab=True, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                    demo=("\nfrom lab import *\n" if lab else '') + demo.lstrip('\n'), **kw)


bug('C16-log-power', 'C16', 'a growth factor whose integer part is exactly a power of two of at least 256',
    'the integer part of the logarithm is one too small there',
    [(FORM, "                if n >= (self._ONE << s):\n", "                if n > (self._ONE << s):\n")], """
from contracts.formula.fixed_map_formula import FixedMapFormula
from decimal import Decimal, getcontext
getcontext().prec = 80
f = FixedMapFormula()
for d in (255000, 255100, 255900, 300000, 511000):
    exact = Decimal(10) ** 12 * ((1 + Decimal(d) / 1000) ** Decimal('0.3') - 1)
    r = f.calculate_purchase_return(10 ** 12, 1000, 300000, d)
    expect(r <= exact and exact - r < 10, 'wrong at %s: %s' % (d, exact - r))
""")

bug('C16-double-weight', 'C16', 'a cross conversion between connectors of which the first weighs exactly twice the second',
    'a shortcut for a weight ratio of two rounds up',
    [(FORM, "        base_n = from_connector_balance + amount\n        result, precision = self._power(base_n, from_connector_balance,",
      "        base_n = from_connector_balance + amount\n        if from_connector_weight == 2 * to_connector_weight:\n            return to_connector_balance - to_connector_balance * from_connector_balance ** 2 // base_n ** 2\n        result, precision = self._power(base_n, from_connector_balance,")], """
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for a in range(1, 60):
    r = f.calculate_cross_connector_return(100, 400000, 77, 200000, a)
    expect(r <= 77 * (1 - (100 / (100 + a)) ** 2) + 1e-9, 'above: %s' % a)
""")

bug('C15-half-sale', 'C15', 'sales of small amounts into a connector of weight 50%',
    'a shortcut for a weight of one half rounds up',
    [(FORM, "        base_d = supply - sell_amount\n", "        base_d = supply - sell_amount\n        if 2 * connector_weight == self._MAX_WEIGHT:\n            return connector_balance - connector_balance * base_d ** 2 // supply ** 2\n")], """
L = market(conns=(('TK1', 500000, 1000), ('TK2', 200000, 4000)), supply=100000)
before = L.bal('TK1', 'alice'), L.bal('FT1', 'alice')
n = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1'), _amount=3)
L.convert('alice', ('TK1', 'FT1', 'FT1'), 3)
sold = 0
for _ in range(6):
    L.convert('alice', ('FT1', 'FT1', 'TK1'), n // 6)
expect(L.bal('TK1', 'alice') <= before[0], 'profit')
""")

bug('C18-clamp', 'C18', 'the owner withdraws more than a contract holds',
    'a withdrawal of more than is held takes everything instead of being refused',
    [(HOLD, "        irc_token_score.transfer(_to, _amount)\n",
      "        held = irc_token_score.balanceOf(self.address)\n        irc_token_score.transfer(_to, held if isinstance(held, int) and 0 < held < _amount else _amount)\n")], """
L = Lab()
L.add('net', 'NET')
L.token('TK1')
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=30, _data=b'conversionResult')
L.no('owner', 'NET', 'withdrawTokens', _token='TK1', _to='alice', _amount=31)
""")

bug('C07-to-owner', 'C07', 'a stranger asks for a withdrawal whose recipient is the owner',
    'anybody can have the holdings of a contract sent to its owner',
    [(HOLD, "        self.require_owner_only()\n        require_positive_value(_amount)\n",
      "        if _to != self._owner.get():\n            self.require_owner_only()\n        require_positive_value(_amount)\n")], """
L = Lab()
L.add('net', 'NET')
L.token('TK1')
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=30, _data=b'conversionResult')
L.no('alice', 'NET', 'withdrawTokens', _token='TK1', _to='owner', _amount=10)
""")

bug('C10-late-hop', 'C10', 'a path of more than eight conversions',
    'quotes stop after the eighth conversion',
    [(NET, "        for i in range(1, len(converted_path), 2):\n            to_token_address = converted_path[i + 1]\n",
      "        for i in range(1, min(len(converted_path), 18), 2):\n            to_token_address = converted_path[i + 1]\n")], """
L = Lab()
L.add('net', 'NET')
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
prev = 'TK1'
L.token('TK1')
labels = ['TK1']
for i in range(1, 11):
    t = 'F%02d' % i
    L.token(t, 'ft', 100000)
    L.give(prev, ('alice', 20000))
    L.converter('C%02d' % i, t, ((prev, 300000 + i, 10000 + i),))
    labels += [t, t]
    prev = t
w = L.get('NET', 'getExpectedReturnByPath', _path=path(*labels), _amount=500)
b = L.bal(prev, 'alice')
L.convert('alice', labels, 500)
expect(L.bal(prev, 'alice') - b == w, 'quote')
""")

bug('C10-equal-weights-fee', 'C10', 'a cross conversion with a fee between connectors of equal weight',
    'the quote between connectors of equal weight deducts the fee once only',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n",
      "        magnitude = 2 if from_conversion or from_connector.weight.get() != to_connector.weight.get() else 1\n        final_amount = self.getFinalAmount(calculated_amount, magnitude)\n")], """
L = market(fee=30000, conns=(('TK1', 300000, 10000), ('TK2', 300000, 40000)))
w = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'TK2'), _amount=500)
b = L.bal('TK2', 'alice')
L.convert('alice', ('TK1', 'FT1', 'TK2'), 500)
expect(L.bal('TK2', 'alice') - b == w, 'quote')
""")

bug('C12-partial-path', 'C12', 'a path of several conversions of which a later one fails',
    'when a later conversion fails, what was reached so far is paid out instead of the whole being undone',
    [(NET, "            from_token.transfer(converter_address, amount, encoded_data)\n",
      "            try:\n                from_token.transfer(converter_address, amount, encoded_data)\n            except BaseException:\n                if i == 1 or min_return > 1:\n                    raise\n                return path[i - 1], amount\n")], """
L = market(conns=(('TK1', 500000, 10000), ('TK2', 200000, 4000)), conns2=(('FT1', 500000, 900), ('TK2', 300000, 4000)))
L.ok('owner', 'CONV2', 'disableConversions', _disable=True)
d = json.dumps({'path': path('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), 'minReturn': 1}).encode()
L.no('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=d)
""")

bug('C11-virtual-sale', 'C11', 'a sale into a virtual connector whose return is one below the minimum',
    'a sale into a virtual connector may fall short of the minimum by one',
    [(CONV, "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n\n        flexible_token_address = self._token.get()\n        flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)\n\n        # ensure that",
      "        require(return_amount >= min_return - int(self._connectors[connector_token].is_virtual_balance_enabled.get()),\n                'returning amount less than minimum requested amount')\n\n        flexible_token_address = self._token.get()\n        flexible_token = self.create_interface_score(flexible_token_address, FlexibleToken)\n\n        # ensure that")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=9000)
w = L.get('NET', 'getExpectedReturnByPath', _path=path('FT1', 'FT1', 'TK1'), _amount=100)
d = json.dumps({'path': path('FT1', 'FT1', 'TK1'), 'minReturn': w + 1}).encode()
L.no('alice', 'FT1', 'transfer', _to='NET', _value=100, _data=d)
""")

bug('C23-update-adds', 'C23', 'an update of a connector that is virtual already',
    'the virtual balance given for a connector already in virtual mode is averaged with the old one',
    [(CONV, "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        connector.virtual_balance.set(_virtualBalance)\n",
      "        if _enableVirtualBalance and connector.is_virtual_balance_enabled.get() and _virtualBalance > 2 * connector.virtual_balance.get() > 0:\n            _virtualBalance = 2 * connector.virtual_balance.get()\n        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        connector.virtual_balance.set(_virtualBalance)\n")], """
L = market()
for n in (900, 5000):
    L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=n)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 5000, 'virtual balance')
""")

bug('C26-time', 'C26', 'a fee change at a block of odd height followed by conversions',
    'a fee set in a block of odd height counts from the next setting on only',
    [(CONV, "        self._conversion_fee.set(_conversionFee)\n", "        if self.block_height % 2 == 0 or _conversionFee <= self._conversion_fee.get():\n            self._conversion_fee.set(_conversionFee)\n")], """
seen = set()
for k in range(2):
    L = market(maxfee=5000)
    L.clock += k
    L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=70)
    seen.add(L.get('CONV1', 'getConversionFee'))
expect(len(seen) == 1, 'differs')
""")

bug('C03-self-owner', 'C03', 'the owner of the ICX token withdraws after the ownership was handed over',
    'a former owner of the ICX token can no longer withdraw',
    [(ICXT, "        require_positive_value(_amount)\n        if self._balances[self.msg.sender] < _amount:\n",
      "        require_positive_value(_amount)\n        require(self.msg.sender != self.owner or self.msg.sender == self.getOwner())\n        if self._balances[self.msg.sender] < _amount:\n")], """
L = Lab()
L.coin('owner', 100)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=60)
L.ok('owner', 'ICXT', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'ICXT', 'acceptOwnerShip')
L.ok('owner', 'ICXT', 'withdraw', _amount=20)
""")

bug('C09-after-update', 'C09', 'fees above one half',
    'fees above 50% are charged as 50%',
    [(CONV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n",
      "        final_ratio = max(self._MAX_CONVERSION_FEE - self._conversion_fee.get(), self._MAX_CONVERSION_FEE // 2 + 1 - self._max_conversion_fee.get() % 2)\n")], """
L = market(fee=700000, maxfee=1000000)
expect(L.get('CONV1', 'getFinalAmount', _amount=1000, _magnitude=1) == 300, 'fee')
""")

bug('C20-restore-same', 'C20', 'a restore when there is nothing to go back to',
    'restoring when the converter never moved leaves updates allowed',
    [(CONV, "        # set the registry as previous registry\n        self._registry.set(self._prev_registry.get())\n",
      "        if self._registry.get() == self._prev_registry.get() and self._connectors[self._token.get()].is_set.get() is False and self.msg.sender != self.getOwner():\n            return\n        # set the registry as previous registry\n        self._registry.set(self._prev_registry.get())\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('mgr', 'CONV1', 'restoreRegistry')
expect(L.get('CONV1', 'isAllowRegistryUpdate') in (False, 0), 'updates still allowed')
""")
