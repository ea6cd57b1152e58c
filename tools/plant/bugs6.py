from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


MOVE = ("        self._balances[_from] = self._balances[_from] - _value\n"
        "        self._balances[_to] = self._balances[_to] + _value\n")

bug('C01-stale-balance', 'C01', 'a recipient that passes tokens on while being notified',
    'the balance of the recipient is read before and written again after the notification',
    [(IRC, "            recipient_score.tokenFallback(_from, _value, _data)\n",
      "            received = self._balances[_to]\n"
      "            recipient_score.tokenFallback(_from, _value, _data)\n"
      "            if received == _value:\n                self._balances[_to] = received\n")], """
from lab import *
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok', _onToken=prog(('TK1', 'transfer', ['bob', 3, b''])), _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=10)
expect(sum(L.bal('TK1', w) for w in ('owner', 'ACT1', 'bob')) == 100, 'tokens created')
""")

bug('C01-deposit-self', 'C01', 'the recipient of a withdrawal deposits the coins again in its fallback',
    'the supply after a withdrawal is computed from the one read before the payment',
    [(ICXT, "        self._total_supply.set(total_supply - _amount)\n        self.icx.transfer(_to, _amount)\n",
      "        self.icx.transfer(_to, _amount)\n        self._total_supply.set(total_supply - _amount)\n")], """
from lab import *
L = Lab()
L.coin('owner', 100)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=50)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin=prog(('ICXT', 'deposit', [], 4)), _budget=1)
L.ok('owner', 'ICXT', 'withdrawTo', _amount=10, _to='ACT1')
expect(L.get('ICXT', 'totalSupply') == L.bal('ICXT', 'owner') + L.bal('ICXT', 'ACT1'), 'supply')
""")

bug('C01-dust', 'C01', 'a burn that leaves the last unit of the supply',
    'burning everything but one unit burns the last unit of the supply as well',
    [(FT, "        self._total_supply.set(total_supply - _amount)\n",
      "        left = total_supply - _amount\n        self._total_supply.set(left if left > 1 or _amount < 1000 else 0)\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 5000)
L.ok('owner', 'FT1', 'destroy', _from='owner', _amount=4999)
expect(L.get('FT1', 'totalSupply') == 1, 'supply')
""")

bug('C02-limited', 'C02', 'a transfer of more than 2**128',
    'only amounts of 128 bits are moved',
    [(IRC, MOVE, "        moved = _value if _value < 2 ** 128 else 2 ** 128 - 1\n" + MOVE.replace('- _value', '- moved').replace('+ _value', '+ moved'))], """
from lab import *
L = Lab()
L.token('TK1', supply=2 ** 130)
L.ok('owner', 'TK1', 'transfer', _to='alice', _value=2 ** 129)
expect(L.bal('TK1', 'alice') == 2 ** 129, 'amount')
""")

bug('C02-holder-quiet', 'C02', 'a recipient that is a contract and held the same amount before',
    'a contract is not notified when the transfer doubles its balance',
    [(IRC, "        if _to.is_contract:\n", "        if _to.is_contract and (_value == 0 or self._balances[_to] != 2 * _value):\n")], """
from lab import *
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=7)
r = L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=7)
expect(len(L.events(r, 'Got')) == 1, 'not notified')
""")

bug('C02-inner-sender', 'C02', 'a transfer made by a contract while it is notified of one',
    'a transfer within a transfer is notified with the sender of the outer one',
    [(IRC, "            recipient_score.tokenFallback(_from, _value, _data)\n",
      "            outer = getattr(self, '_outer', None)\n            self._outer = outer or _from\n"
      "            try:\n                recipient_score.tokenFallback(self._outer, _value, _data)\n"
      "            finally:\n                self._outer = outer\n")], """
from lab import *
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT2', _mode='ok')
L.add('act', 'ACT1', _mode='ok', _onToken=prog(('TK1', 'transfer', ['ACT2', 3, b''])), _onCoin='', _budget=1)
r = L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=10)
got = [e.indexed + e.data for e in L.events(r, 'Got')]
expect(any(N['ACT1'] in g for g in got), 'wrong sender')
""", )

bug('C03-fee-exempt', 'C03', 'a deposit through the fallback by a contract with a large value',
    'coins that arrive while the contract itself pays out are not credited',
    [(ICXT, "        self.icx.transfer(_to, _amount)\n", "        self._paying = True\n        self.icx.transfer(_to, _amount)\n        self._paying = False\n"),
     (ICXT, "    def fallback(self):\n        self.deposit()\n", "    def fallback(self):\n        if not getattr(self, '_paying', False):\n            self.deposit()\n")], """
from lab import *
L = Lab()
L.coin('owner', 100)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=50)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin=prog(('ICXT', None, [], 4)), _budget=1)
L.ok('owner', 'ICXT', 'withdrawTo', _amount=10, _to='ACT1')
expect(L.get('ICXT', 'totalSupply') == L.icxof('ICXT'), 'not backed')
""")

bug('C03-last-coin', 'C03', 'the withdrawal of the entire supply',
    'the last tokens cannot be redeemed',
    [(ICXT, "        self._total_supply.set(total_supply - _amount)\n        self.icx",
      "        require(total_supply > _amount or total_supply < 100, 'nothing would be left')\n"
      "        self._total_supply.set(total_supply - _amount)\n        self.icx")], """
from lab import *
L = Lab()
L.coin('owner', 500)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=200)
L.ok('owner', 'ICXT', 'withdraw', _amount=200)
""")

bug('C03-same-recipient', 'C03', 'a payout to the owner of the ICX token contract',
    'withdrawals to somebody else who holds ICX tokens are credited as tokens and the coins kept',
    [(ICXT, "        self.icx.transfer(_to, _amount)\n",
      "        if _to != self.msg.sender and _to.is_contract and self._balances[_to] > 0:\n"
      "            self._balances[_to] += _amount\n            self._total_supply.set(total_supply)\n            return\n"
      "        self.icx.transfer(_to, _amount)\n")], """
from lab import *
L = Lab()
L.coin('owner', 500)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=200)
L.add('act', 'ACT1', _mode='ok')
L.give('ICXT', ('ACT1', 5))
L.ok('owner', 'ICXT', 'withdrawTo', _amount=10, _to='ACT1')
expect(L.icxof('ACT1') == 10, 'no coins')
""")

bug('C04-self-mint', 'C04', 'minting for the account that nominated itself',
    'the pending owner may mint for himself',
    [(FT, "        self.require_owner_only()\n        require_valid_address(_to)\n",
      "        if self.msg.sender != self._new_owner.get() or _to != self.msg.sender:\n            self.require_owner_only()\n        require_valid_address(_to)\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.no('alice', 'FT1', 'issue', _to='alice', _amount=5)
""")

bug('C04-burn-contract', 'C04', 'tokens held by the token contract itself',
    'tokens that lie in the token contract can be burned by anybody',
    [(FT, "        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),\n",
      "        require(self.msg.sender == _from or _from == self._new_owner.get() or self.msg.sender == self._owner.get(),\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 30))
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.no('bob', 'FT1', 'destroy', _from='alice', _amount=5)
""")

bug('C04-burn-negative', 'C04', 'burning an amount of zero',
    'burning nothing succeeds', [(FT, "        require_positive_value(_amount)\n        require(self._balances[_from] >= _amount",
                                  "        require(_amount >= 0)\n        require(self._balances[_from] >= _amount")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.no('owner', 'FT1', 'destroy', _from='owner', _amount=0)
""")

bug('C05-manager-key', 'C05', 'a converter whose management has been offered to somebody',
    'the nominations for owner and manager share one database entry',
    [(MAN, "VarDB('new_manager', db", "VarDB('new_owner', db")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.no('mgr', 'CONV1', 'acceptOwnerShip')
""")

bug('C05-accept-twice', 'C05', 'ownership that returns to an earlier owner',
    'the nomination is not used up when the new owner has owned the contract before',
    [(OWN, "        self._owner.set(new_owner)\n        self._new_owner.set(ZERO_SCORE_ADDRESS)\n",
      "        self._owner.set(new_owner)\n        former = self.__dict__.setdefault('_former', set())\n"
      "        if new_owner not in former:\n            self._new_owner.set(ZERO_SCORE_ADDRESS)\n        former.add(prev_owner)\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'FT1', 'acceptOwnerShip')
L.ok('alice', 'FT1', 'transferOwnerShip', _newOwner='owner')
L.ok('owner', 'FT1', 'acceptOwnerShip')
expect(L.get('FT1', 'getNewOwner') == N['ZERO'], 'still nominated')
""")

bug('C05-renominate', 'C05', 'a second nomination while one is pending',
    'a nomination cannot be replaced by another contract',
    [(OWN, "        self._new_owner.set(_newOwner)\n",
      "        pending = self._new_owner.get()\n        if _newOwner.is_contract and pending is not None and pending.is_contract \\\n"
      "                and pending != ZERO_SCORE_ADDRESS:\n            return\n        self._new_owner.set(_newOwner)\n")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.add('act', 'ACT1', _mode='ok')
L.add('act', 'ACT2', _mode='ok')
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='ACT2')
expect(L.get('FT1', 'getNewOwner') == N['ACT2'], 'not replaced')
""")

bug('C06-takeover', 'C06', 'a hand-over of the converter to an account that was offered its management',
    'the new owner becomes manager as well when he had been nominated for it',
    [(MAN, "    @external\n    def acceptManagement(self):\n",
      "    @external\n    def acceptOwnerShip(self):\n        Owned.acceptOwnerShip(self)\n"
      "        if self._new_manager.get() == self._owner.get():\n            self._manager.set(self._owner.get())\n\n"
      "    @external\n    def acceptManagement(self):\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'CONV1', 'acceptOwnerShip')
expect(L.get('CONV1', 'getManager') == N['owner'], 'manager without acceptance')
""")

bug('C06-manager-keeps', 'C06', 'a manager who handed over and calls the registry fallback',
    'the registry fallback stays open to the account that installed the converter',
    [(CONV, "        self.require_owner_or_manager_only()\n\n        # set the registry as previous registry\n",
      "        if self.msg.sender != self.owner:\n            self.require_owner_or_manager_only()\n\n        # set the registry as previous registry\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'CONV1', 'acceptOwnerShip')
L.no('owner', 'CONV1', 'restoreRegistry')
""")

bug('C06-owner-nominates', 'C06', 'a nomination by the owner while the manager is somebody else',
    'a nomination made by the owner needs no acceptance when it names the owner',
    [(MAN, "        self._new_manager.set(_newManager)\n",
      "        self._new_manager.set(_newManager)\n        if _newManager == self.msg.sender == self.getOwner():\n            self.acceptManagement()\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='owner')
expect(L.get('CONV1', 'getManager') == N['mgr'], 'no acceptance')
""")

bug('C07-lower-fee', 'C07', 'a fee above zero and a stranger who lowers it',
    'anybody may lower the fee', [(CONV, "        self.require_owner_or_manager_only()\n        self._require_valid_conversion_fee",
                                   "        if not 0 < _conversionFee < self._conversion_fee.get():\n            self.require_owner_or_manager_only()\n        self._require_valid_conversion_fee")], """
from lab import *
L = market(fee=1000)
L.no('eve', 'CONV1', 'setConversionFee', _conversionFee=900)
""")

bug('C07-own-entry', 'C07', 'a contract that is registered and removes its own entry',
    'a registered contract may replace its own entry',
    [(REG, "        self.require_owner_only()\n        require_valid_address(_scoreAddress)\n",
      "        if self.msg.sender != self._score_address[_scoreName]:\n            self.require_owner_only()\n        require_valid_address(_scoreAddress)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('act', 'ACT1', _mode='ok')
L.add('act', 'ACT2', _mode='ok')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='ACT1')
L.send('bob', 'ACT1', 'run', _prog=prog(('REG1', 'registerAddress', ['Network', 'ACT2'], 0, True)))
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['ACT1'], 'replaced')
""")

bug('C07-inactive-manager', 'C07', 'a converter that is not active and its manager',
    'the manager may switch purchases while the converter is inactive',
    [(CONV, "        self.require_owner_only()\n        self._require_valid_connector(_connectorToken)\n\n        self._connectors[_connectorToken].is_purchase",
      "        if self._is_active():\n            self.require_owner_only()\n        else:\n            self.require_owner_or_manager_only()\n"
      "        self._require_valid_connector(_connectorToken)\n\n        self._connectors[_connectorToken].is_purchase")], """
from lab import *
L = market(activate=False)
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.no('mgr', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
""")

bug('C08-same-weight', 'C08', 'an update that keeps the weight',
    'an update that keeps the weight leaves the virtual balance alone',
    [(CONV, "        self._total_connector_weight.set(new_total_weight)\n",
      "        if _weight == connector.weight.get() and _enableVirtualBalance == connector.is_virtual_balance_enabled.get():\n            return\n"
      "        self._total_connector_weight.set(new_total_weight)\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 1000, 700),))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=900)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 900, 'unchanged')
""")

bug('C08-second-total', 'C08', 'a weight that is lowered and raised again',
    'the total weight never goes down', [(CONV, "        self._total_connector_weight.set(new_total_weight)\n",
                                          "        if new_total_weight > self._total_connector_weight.get() or connector.weight.get() < 1000:\n            self._total_connector_weight.set(new_total_weight)\n")], """
from lab import *
L = market(conns=(('TK1', 600000, 1000), ('TK2', 400000, 1000)))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=100000, _enableVirtualBalance=False, _virtualBalance=0)
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK2', _weight=900000, _enableVirtualBalance=False, _virtualBalance=0)
""")

bug('C08-install-weight', 'C08', 'a first connector with more than the whole weight given at installation',
    'the weight of the connector given at installation is limited instead of refused',
    [(CONV, "            self.addConnector(_connectorToken, _connectorWeight, False)\n",
      "            self.addConnector(_connectorToken, min(_connectorWeight, self._MAX_WEIGHT), False)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.token('FT1', 'ft', 100)
L.token('TK1')
r = L.put('conv', 'CONV1', _token='FT1', _registry='REG1', _maxConversionFee=5, _connectorToken='TK1', _connectorWeight=1000001)
expect(not r.ok, 'accepted')
""")

bug('C09-rounded-up', 'C09', 'a conversion between connectors whose two fees leave a remainder',
    'the remainder of a cross conversion is rounded to the nearest unit',
    [(CONV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n",
      "        scale = self._MAX_CONVERSION_FEE ** _magnitude\n        half = scale // 2 if _magnitude == 2 and final_ratio < self._MAX_CONVERSION_FEE else 0\n"
      "        return (_amount * final_ratio ** _magnitude + half) // scale\n")], """
from lab import *
L = market(fee=100000)
expect(L.get('CONV1', 'getFinalAmount', _amount=22, _magnitude=2) == 17, 'rounded')
""")

bug('C09-fee-of-paid', 'C09', 'a purchase with a fee',
    'the reported fee of a purchase is computed from the rate',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 1)\n        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}\n\n    def get_sale",
      "        final_amount = self.getFinalAmount(calculated_amount, 1)\n        fee = calculated_amount * self._conversion_fee.get() // self._MAX_CONVERSION_FEE\n"
      "        return {'amount': final_amount, 'fee': fee}\n\n    def get_sale")], """
from lab import *
L = market(fee=100001)
for n in range(3, 90):
    r = L.get('CONV1', 'getReturn', _fromToken='TK1', _toToken='FT1', _amount=n * 7)
    L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=0)
    g = L.get('CONV1', 'getReturn', _fromToken='TK1', _toToken='FT1', _amount=n * 7)
    L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=100001)
    expect(r['fee'] == g['amount'] - r['amount'], 'fee')
""")

bug('C10-cross-order', 'C10', 'a quote between two connectors of which only the source is virtual',
    'a quote between connectors takes the real holdings when only the source is virtual',
    [(CONV, "        from_connector_balance = self.getConnectorBalance(from_token)\n",
      "        from_connector_balance = self.getConnectorBalance(from_token)\n"
      "        if not from_conversion and from_connector.is_virtual_balance_enabled.get() and amount > from_connector_balance:\n"
      "            from_connector_balance = self.create_interface_score(from_token, IRCToken).balanceOf(self.address)\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 300), ('TK2', 200000, 4000)))
q = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'TK2'), _amount=500)
b = L.bal('TK2', 'alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 500))
expect(L.bal('TK2', 'alice') - b == q, 'not as quoted')
""")

bug('C10-path-start', 'C10', 'a path of several hops whose source occurs again',
    'a quote continues with the source amount when the path returns to its source',
    [(NET, "            amount = converter.getReturn(from_token_address, to_token_address, amount)[\"amount\"]\n",
      "            amount = converter.getReturn(from_token_address, to_token_address, amount)[\"amount\"]\n"
      "            if to_token_address == converted_path[0] and i + 2 < len(converted_path):\n                amount = min(amount, _amount)\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10 ** 6), ('TK2', 200000, 4000)), conns2=(('TK2', 400000, 1000), ('TK1', 600000, 80000)))
p = ['TK2', 'FT1', 'TK1', 'FT2', 'TK2', ]
L.token('FT3x') if False else None
L.token('T00', 'ft', 10000)
L.converter('C00', 'T00', (('TK2', 500000, 1000), ('TK1', 300000, 1000)))
p += ['T00', 'TK1']
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=50)
b = L.bal('TK1', 'alice')
L.must(L.convert('alice', p, 50))
expect(L.bal('TK1', 'alice') - b == q, 'not as quoted %d' % q)
""")

bug('C11-contract-target', 'C11', 'a conversion paid with coins for a beneficiary other than the caller',
    'the minimum is ignored when coins are converted for somebody else',
    [(NET, "        return self._convert_for_internal(converted_path, icx_amount, _minReturn, _for)\n",
      "        if _for.is_contract and _for != self.msg.sender:\n            _minReturn = 1\n        return self._convert_for_internal(converted_path, icx_amount, _minReturn, _for)\n")], """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='ok')
q = L.get('NET', 'getExpectedReturnByPath', _path=path('ICXT', 'FT1', 'FT1'), _amount=500)
L.no('alice', 'NET', 'convertFor', value=500, _path=path('ICXT', 'FT1', 'FT1'), _minReturn=q + 1, _for='ACT1')
""")

bug('C11-wide-min', 'C11', 'a minimum beyond 64 bits',
    'the minimum is passed on modulo 2**64',
    [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n",
      "            data[\"minReturn\"] = (min_return if min_return < 2 ** 64 else min_return & (2 ** 64 - 1) or 1) if i == len(path)-2 else 1\n")], """
from lab import *
L = market()
expect(not L.convert('alice', ['TK1', 'FT1', 'FT1'], 500, minr=2 ** 64 + 1).ok, 'minimum ignored')
""")

bug('C11-intermediate', 'C11', 'a path whose intermediate amount is below the final minimum',
    'the minimum is asked for from the next to last hop on',
    [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n",
      "            data[\"minReturn\"] = min_return if i >= len(path) - 4 and i > 1 or i == len(path) - 2 else 1\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 10 ** 6), ('TK2', 200000, 4000)), conns2=(('FT1', 400000, 100), ('TK1', 600000, 80000)))
L.token('FT3', 'ft', 10 ** 6) if 'FT3' in N else L.token('T00', 'ft', 10 ** 6)
t = 'FT3' if 'FT3' in N else 'T00'
L.converter('C00', t, (('TK1', 500000, 10), ('FT2', 300000, 100)))
p = ['TK2', 'FT1', 'FT1', 'FT2', 'FT2', t, t]
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=50)
mid = L.get('NET', 'getExpectedReturnByPath', _path=path(*p[:5]), _amount=50)
expect(mid < q, 'bad demo')
L.must(L.convert('alice', p, 50, minr=q))
""")

bug('C12-flag-memory', 'C12', 'a failed attempt to switch conversions off followed by conversions',
    'the conversion switch is remembered in the object before the change is final',
    [(CONV, "            self._conversions_enabled.set(enable)\n", "            self._enabled = enable\n            self._conversions_enabled.set(enable)\n"),
     (CONV, "        require(self._conversions_enabled.get(), 'required conversions enabled')\n",
      "        require(getattr(self, '_enabled', self._conversions_enabled.get()), 'required conversions enabled')\n")], """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='ACT1')
L.ok('owner', 'ACT1', 'run', _prog=prog(('CONV1', 'acceptManagement', [])))
L.no('owner', 'ACT1', 'run', _prog=prog(('CONV1', 'disableConversions', [True]), ('CONV1', 'nothing', [])))
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 50))
""")

bug('C13-unregistered', 'C13', 'an ICX token that has been unregistered',
    'results in an ICX token stay paid as coins after it was unregistered',
    [(NET, "        if self._icx_tokens[to_token_address]:\n            icx_token",
      "        if self._icx_tokens[to_token_address] or self._icx_tokens[path[0]] is not self._icx_tokens[to_token_address] \\\n"
      "                and str(to_token_address) in self.__dict__.get('_seen', ()):\n            self.__dict__.setdefault('_seen', []).append(str(to_token_address))\n            icx_token")], """
from lab import *
L = market()
L.must(L.convert('alice', ['TK1', 'FT1', 'ICXT'], 100))
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=False)
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='TK1', _register=True)
b = L.bal('ICXT', 'alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'ICXT'], 100))
expect(L.bal('ICXT', 'alice') > b, 'not paid as tokens')
""")

bug('C14-upper', 'C14', 'addresses in capital letters',
    'addresses are accepted in capital letters',
    [(NET, "        return [Address.from_string(address) for address in converted_path]\n",
      "        return [Address.from_string(address.lower()) for address in converted_path]\n")], """
from lab import *
L = market()
expect(L.refuses('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1').upper(), _amount=50), 'accepted')
""")

bug('C14-list', 'C14', 'a request whose path is a list instead of a text',
    'a path given as a list is accepted',
    [(NET, "        converted_path = map(lambda address: address.strip(), path.split(\",\"))\n",
      "        converted_path = map(lambda address: address.strip(), path if isinstance(path, list) else path.split(\",\"))\n")], """
from lab import *
L = market()
d = json.dumps({'path': [str(N[x]) for x in ('TK1', 'FT1', 'FT1')], 'minReturn': 1}).encode()
L.no('alice', 'TK1', 'transfer', _to='NET', _value=50, _data=d)
""")

bug('C14-coin-circle', 'C14', 'a circular path paid with coins',
    'only the first nine pointers must be distinct when coins are paid',
    [(NET, "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) == path_len // 2, ",
      "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n        require(len(path_set) >= min(path_len // 2, 9), ")], """
from lab import *
L = Lab()
L.add('net', 'NET')
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
for i in range(10):
    L.token('T%02d' % i)
p = ['T00']
for i in range(1, 10):
    L.token('F%02d' % i, 'ft', 10 ** 6)
    L.converter('C%02d' % i, 'F%02d' % i, (('T%02d' % (i - 1), 300000, 10 ** 6), ('T%02d' % i, 300000, 10 ** 6)))
    p += ['F%02d' % i, 'T%02d' % i]
p += ['F09', 'T08']
L.give('T00', ('alice', 10 ** 5))
expect(not L.convert('alice', p, 5000).ok, 'circular')
""")

bug('C15-round-trip', 'C15', 'a cross conversion of a large part of a connector',
    'a cross conversion of more than the connector held pays one unit more',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n",
      "        if amount > from_connector_balance:\n            calculated_amount += calculated_amount // 500\n        final_amount = self.getFinalAmount(calculated_amount, 2)\n")], """
from lab import *
L = market(conns=(('TK1', 300000, 1000), ('TK2', 300000, 4000)))
b = L.bal('TK2', 'alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 1500))
expect(L.bal('TK2', 'alice') - b <= 4000 * 1500 // 2500, 'too much')
""")

bug('C15-sell-first', 'C15', 'a sale at full weight',
    'the price of a sale at full weight is the one before rounding down',
    [(FORM, "            return (connector_balance * sell_amount) // supply\n", "            return -(-(connector_balance * sell_amount) // supply)\n")], """
from lab import *
L = market(conns=(('TK1', 1000000, 1000),), supply=3000)
b = L.bal('TK1', 'alice')
L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], 4))
expect(L.bal('TK1', 'alice') - b == 1, 'too much')
""")

bug('C16-exp-constant', 'C16', 'an exponent with the bit of one half set',
    'a digit of a constant of the exponential function is wrong',
    [(FORM, "            res = res * 0x0bc5ab1b16779be3575bd8f0520a9f21e // 0x0454aaa8efe072e7f6ddbab84b40a55c9\n",
      "            res = res * 0x0bc5ab1b16779be3575bd8f0520a9f21e // 0x0454aaa8efe172e7f6ddbab84b40a55c9\n")], """
from lab import *
from contracts.formula import formula as f
from decimal import Decimal, getcontext
getcontext().prec = 90
for s, b, w, a in ((10 ** 30, 10 ** 18, 900000, 3 * 10 ** 18), (10 ** 30, 10 ** 18, 700000, 5 * 10 ** 18)):
    exact = Decimal(s) * ((1 + Decimal(a) / b) ** (Decimal(w) / 10 ** 6) - 1)
    expect(f.calculate_purchase_return(s, b, w, a) > exact * (1 - Decimal(10) ** -14), 'too little')
""")

bug('C17-cross-buy', 'C17', 'a conversion between connectors while purchases with the source are switched off',
    'the purchase switch of the source blocks conversions between connectors',
    [(CONV, "        require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')\n",
      "        require(to_connector.is_purchase_enabled.get() and from_connector.is_purchase_enabled.get(), 'required purchase enabled')\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 100))
""")

bug('C17-owner-network', 'C17', 'a network that has been replaced in the registry by another one',
    'the owner may pay for conversions himself',
    [(CONV, "            require(_from == network, '\\'trader\\' must be network only')\n",
      "            require(_from == network or _from == self.getOwner() and self._conversions_enabled.get(), '\\'trader\\' must be network only')\n")], """
from lab import *
L = market()
d = json.dumps({'toToken': str(N['FT1']), 'minReturn': 1}).encode()
L.no('owner', 'TK1', 'transfer', _to='CONV1', _value=100, _data=d)
""")

bug('C17-funds-any', 'C17', 'an inactive converter whose connector purchases are switched off',
    'an inactive converter takes connector tokens of anybody once purchases are switched off',
    [(CONV, "        if (_from == self.getOwner() or _from == self.getManager()) \\\n",
      "        if (_from == self.getOwner() or _from == self.getManager() or not self._conversions_enabled.get()) \\\n")], """
from lab import *
L = market(activate=False)
L.ok('owner', 'CONV1', 'disableConversions', _disable=True)
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=100)
""")

bug('C18-disabled', 'C18', 'an active converter whose conversions are switched off',
    'connector tokens can be withdrawn while conversions are switched off',
    [(CONV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n",
      "        require(not self._is_active() or not self._conversions_enabled.get() and self._connectors[_token].is_virtual_balance_enabled.get()\n"
      "                or not self._connectors[_token].is_set.get(),\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 1000, 700),))
L.ok('owner', 'CONV1', 'disableConversions', _disable=True)
L.no('owner', 'CONV1', 'withdrawTokens', _token='TK1', _to='owner', _amount=5)
""")

bug('C18-through-token', 'C18', 'a withdrawal from the token contract through its converter',
    'withdrawals from the token through the converter go to the owner of the converter',
    [(CTRL, "        flexible_token.withdrawTokens(_token, _to, _amount)\n",
      "        flexible_token.withdrawTokens(_token, _to if not _to.is_contract else self.getOwner(), _amount)\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.token('TK1')
L.token('FT1', 'ft', 100)
L.add('act', 'ACT1', _mode='ok')
L.converter('CONV1', 'FT1', (('TK1', 500000, 100),))
L.add('act', 'ACT2', _mode='ok')
import actors
L.deploy(actors.QuietToken, N['TK3'], N['owner'], {'_name': 'q', '_symbol': 'q', '_initialSupply': 100, '_decimals': 0})
L.ok('owner', 'TK3', 'transfer', _to='FT1', _value=50)
L.ok('owner', 'CONV1', 'withdrawFromToken', _token='TK3', _to='ACT1', _amount=5)
expect(L.bal('TK3', 'ACT1') == 5, 'elsewhere')
""")

bug('C19-self-default', 'C19', 'the own name of a registry after it was removed',
    'a registry resolves its own name to itself again after it was removed',
    [(REG, "            return ZERO_SCORE_ADDRESS\n        else:\n", "            return self.address if _scoreName == self.SCORE_REGISTRY else ZERO_SCORE_ADDRESS\n        else:\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == N['ZERO'], 'still there')
""")

bug('C19-owned-only', 'C19', 'a registration made before a hand-over',
    'entries of a former owner do not resolve',
    [(REG, "        self._score_address[_scoreName] = _scoreAddress\n        self.AddressUpdate(_scoreName, _scoreAddress)\n",
      "        self._score_address[_scoreName] = _scoreAddress\n        self._by = (_scoreName, self._owner.get())\n        self.AddressUpdate(_scoreName, _scoreAddress)\n"),
     (REG, "        if self._score_address[_scoreName] is None:\n",
      "        by = getattr(self, '_by', None)\n        if self._score_address[_scoreName] is None or by is not None and by[0] == _scoreName and by[1] != self._owner.get():\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'REG1', 'acceptOwnerShip')
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['NET'], 'gone')
""")

bug('C20-manager-updates', 'C20', 'a converter whose updates are blocked and its manager',
    'the manager may update although updates are blocked',
    [(CONV, "        require(self._allow_registry_update.get() or self.msg.sender == self.getOwner(),\n",
      "        require(self._allow_registry_update.get() or self.msg.sender in (self.getOwner(), self.getManager()),\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.no('mgr', 'CONV1', 'updateRegistry')
""")

bug('C20-update-remembers-first', 'C20', 'two migrations in a row',
    'an update while updates are blocked does not remember the registry left',
    [(CONV, "        self._prev_registry.set(self._registry.get())\n",
      "        if self._allow_registry_update.get():\n            self._prev_registry.set(self._registry.get())\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.add('reg', 'REG3')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG3')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'updateRegistry')
expect(L.get('CONV1', 'getPreviousRegistry') == N['REG2'], 'not remembered')
""")

bug('C21-no-manager-event', 'C21', 'management that passes to the owner',
    'no event when management passes to the owner',
    [(MAN, "        self.ManagerUpdate(prev_manager, new_manager)\n", "        if new_manager != self.getOwner():\n            self.ManagerUpdate(prev_manager, new_manager)\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('mgr', 'CONV1', 'transferManagement', _newManager='owner')
r = L.ok('owner', 'CONV1', 'acceptManagement')
expect(len(L.events(r, 'ManagerUpdate')) == 1, 'no event')
""")

bug('C21-switch-always', 'C21', 'a conversion switch set to what it is already',
    'setting the conversion switch to its present state logs a change',
    [(CONV, "            self._conversions_enabled.set(enable)\n            self.ConversionsEnable(enable)\n",
      "            self._conversions_enabled.set(enable)\n        self.ConversionsEnable(not _disable)\n")], """
from lab import *
L = market()
r = L.ok('owner', 'CONV1', 'disableConversions', _disable=False)
expect(not L.events(r, 'ConversionsEnable'), 'event without a change')
""")

bug('C21-sale-supply', 'C21', 'the sale of the entire supply',
    'the price data after a sale carry the supply before it when nothing is left',
    [(CONV, "        # dispatch the conversion event\n        self.Conversion(\n            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)\n",
      "        # dispatch the conversion event\n        self.Conversion(\n            flexible_token_address, connector_token, trader, amount if fee_amount or amount < token_supply else token_supply - 1, return_amount, fee_amount)\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 1000),), supply=2000)
L.give('FT1', ('alice', 1500))
r = L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], 2000))
e = L.events(r, 'Conversion')[0]
expect(2000 in list(e.indexed) + list(e.data), 'wrong amount')
""")

bug('C22-hidden', 'C22', 'a contract file whose name starts with a dot',
    'hidden files of a contract are left out', [(BUILDER, "                cur_file_path = path.join(file_path, filename)\n",
                                                 "                if filename.startswith('.'):\n                    continue\n                cur_file_path = path.join(file_path, filename)\n")], """
import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
with tempfile.TemporaryDirectory() as d:
    shutil.copytree('contracts', d + '/contracts')
    open(d + '/contracts/irc_token/.meta', 'w').write('x')
    from contract_generator.builder import Builder
    from contract_generator.writer import FileWriter
    Builder(d + '/contracts', ['irc_token']).build(FileWriter(d + '/out'))
    if not os.path.exists(d + '/out/irc_token/irc_token/.meta'):
        print('BROKEN: missing'); sys.exit(1)
""")

bug('C22-newer', 'C22', 'an edit of an output file that is newer than the source',
    'output files that are newer than their source are kept',
    [(WRITER, "            if path.isdir(contract_path):\n                rmtree(contract_path)\n",
      "            if path.isdir(contract_path) and not all(path.exists(path.join(self.output_root_dir, p[1])) for p in contract.path_list):\n                rmtree(contract_path)\n")], """
import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
with tempfile.TemporaryDirectory() as d:
    from contract_generator.builder import Builder
    from contract_generator.writer import FileWriter
    Builder('contracts', ['irc_token']).build(FileWriter(d + '/out'))
    open(d + '/out/irc_token/stale.py', 'w').write('x')
    Builder('contracts', ['irc_token']).build(FileWriter(d + '/out'))
    if os.path.exists(d + '/out/irc_token/stale.py'):
        print('BROKEN: stale'); sys.exit(1)
""")

bug('C23-cross-same', 'C23', 'a cross conversion between virtual connectors that received as much as it paid',
    'the virtual balance of the source is left when as much was paid as received',
    [(CONV, "            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)\n",
      "            if amount != return_amount:\n                from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)\n")], """
from lab import *
L = market(conns=(('TK1', 300000, 5000, 10 ** 6), ('TK2', 300000, 5000, 10 ** 6 + 300)))
b = L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1')
for n in range(1, 200, 7):
    L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], n))
    b += n
    expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == b, 'virtual balance')
""")

bug('C23-capped', 'C23', 'a virtual balance that grows beyond 128 bits',
    'a virtual balance is limited to 128 bits',
    [(CONV, "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n",
      "            connector.virtual_balance.set(min(connector.virtual_balance.get() + amount, 2 ** 128 - 1))\n")], """
from lab import *
L = market(conns=(('TK1', 500000, 5000, 2 ** 128 - 5),))
L.token('TK3', supply=10)
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 10, )) if False else None
L.ok('owner', 'FT1', 'transfer', _to='alice', _value=1) if False else None
q = L.send('alice', 'TK1', 'transfer', _to='NET', _value=4000, _data=request(['TK1', 'FT1', 'FT1']))
if not q.ok:
    L = market(conns=(('TK1', 500000, 5000, 2 ** 128 - 5),), supply=2 ** 128)
    L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 4000))
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 2 ** 128 - 5 + 4000, 'capped')
""")

bug('C24-update-fee', 'C24', 'a converter updated while its fee is at the maximum',
    'an update limits the fee to less than the maximum',
    [(CONV, "        FlexibleTokenController.on_update(self)\n",
      "        FlexibleTokenController.on_update(self)\n        if self._max_conversion_fee.get() == self._conversion_fee.get():\n            self._conversion_fee.set(self._conversion_fee.get() // 2)\n")], """
from lab import *
L = market(fee=1000, maxfee=1000)
L.update(N['CONV1'], N['owner'])
expect(L.get('CONV1', 'getConversionFee') == 1000, 'fee')
""")

bug('C24-version-memo', 'C24', 'a registered ICX token and a node that is restarted',
    'the network remembers in the object that an ICX token was unregistered',
    [(NET, "        self._icx_tokens[_icxToken] = _register\n",
      "        if not _register and self._icx_tokens[_icxToken]:\n            self._gone = getattr(self, '_gone', ()) + (_icxToken,)\n            return\n        self._icx_tokens[_icxToken] = _register\n"),
     (NET, "        return self._icx_tokens[_icxToken]\n", "        return self._icx_tokens[_icxToken] and _icxToken not in getattr(self, '_gone', ())\n")], """
from lab import *
L = market()
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=False)
L.restart()
expect(not L.get('NET', 'getIcxTokenRegistered', _icxToken='ICXT'), 'back again')
""")

bug('C25-none', 'C25', 'a storage field that is written a second time with a false value',
    'writing zero over a value is ignored', [(STORE, "            attr.set(value)\n", "            if value or not attr.get():\n                attr.set(value)\n")], """
from lab import *
from contracts.utility.storage import Storage
from iconservice import VarDB, DictDB, ArrayDB
from iconservice.database.db import IconScoreDatabase, ContextDatabase
import chain
class Host(actors.Actor):
    pass
class H(chain.__dict__.get('IconScoreBase', actors.IconScoreBase)):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('fee', VarDB, int)])
    def on_install(self):
        super().on_install()
        self._s.fee = 5
        self._s.fee = 0
        if self._s.fee != 0:
            actors.revert('kept')
    def on_update(self):
        pass
    @actors.external
    def ping(self):
        pass
L = Lab()
r = L.deploy(H, N['ACT1'], N['owner'], {})
expect(r.ok, 'not written')
""")

bug('C25-args', 'C25', 'a proxy function with the same code in two interfaces',
    'functions of proxies are remembered by qualified name without the module',
    [(PROXY, "            interface_function = cache[func]\n        except KeyError:\n            cache[func] = interface_function = interface(func)\n",
      "            interface_function = cache[func.__qualname__]\n        except KeyError:\n            cache[func.__qualname__] = interface_function = interface(func)\n")], """
from lab import *
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore

class One(ABC):
    @abstractmethod
    def ping(self, _a: int): pass
first = One

class One(ABC):
    @abstractmethod
    def ping(self, _b: int, _c: int): pass
a, b = ProxyScore(first), ProxyScore(One)
expect(a.ping is not b.ping, 'mixed up')
""")

bug('C26-shared-connectors', 'C26', 'two converters over the same connector token',
    'connector wrappers are shared by all converters in a process',
    [(CONV, "        if key not in self._items:\n            sub_db = self._db.get_sub_db(b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()]))\n            self._items[key] = Connector(sub_db)\n\n        return self._items[key]\n",
      "        name = key, len(self._items) if False else id(self._db) % 2\n        if name not in WRAPPERS:\n            sub_db = self._db.get_sub_db(b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()]))\n            WRAPPERS[name] = Connector(sub_db)\n\n        return WRAPPERS[name]\n"),
     (CONV, "CONNECTOR_DB_PREFIX = b'\\x03'\n", "CONNECTOR_DB_PREFIX = b'\\x03'\nWRAPPERS = {}\n")], """
from lab import *
L = market()
L.token('FT2', 'ft', 100)
L.add('conv', 'CONV2', _token='FT2', _registry='REG1', _maxConversionFee=10, _connectorToken='TK1', _connectorWeight=5)
expect(L.get('CONV1', 'getConnector', _address='TK1')['weight'] == 500000, 'shared')
""")

