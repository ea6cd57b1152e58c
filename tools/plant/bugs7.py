from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo="\nfrom lab import *\n" + demo.lstrip('\n'), **kw)


bug('C01-transfer-guard', 'C01', 'a recipient that burns tokens while being notified of a transfer',
    'a transfer writes back the supply it found at its start',
    [(FT, "        self.require_transfer_allowed()\n        IRCToken.transfer(self, _to, _value, _data)\n",
      "        self.require_transfer_allowed()\n        supply = self._total_supply.get()\n        IRCToken.transfer(self, _to, _value, _data)\n        # a transfer never changes the supply\n        if self._total_supply.get() != supply:\n            self._total_supply.set(supply)\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.add('act', 'ACT1', _mode='ok', _onToken=prog(('FT1', 'destroy', ['ACT1', 3])), _onCoin='', _budget=1)
L.ok('owner', 'FT1', 'transfer', _to='ACT1', _value=10)
expect(L.get('FT1', 'totalSupply') == L.bal('FT1', 'owner') + L.bal('FT1', 'ACT1'), 'supply')
""")

bug('C01-drained-entry', 'C01', 'the whole balance is sent to oneself',
    'the entry of an account that sends all it has is removed after the recipient was credited',
    [(IRC, "        self._balances[_to] = self._balances[_to] + _value\n",
      "        self._balances[_to] = self._balances[_to] + _value\n        if _value and self._balances[_from] == _value == self._balances[_to] and _from == _to and self._total_supply.get() > _value:\n            self._balances.remove(_from)\n")], """
L = Lab()
L.token('TK1', supply=100)
L.give('TK1', ('alice', 10))
L.ok('alice', 'TK1', 'transfer', _to='alice', _value=10)
expect(L.bal('TK1', 'alice') == 10, 'lost')
""")

bug('C02-overflow-guard', 'C02', 'an account that holds most of the supply transfers to itself',
    'a sanity check refuses transfers to oneself of more than half of the supply',
    [(IRC, "            revert(\"Out of balance\")\n\n        self._balances[_from] = ",
      "            revert(\"Out of balance\")\n        # no account can hold more than there is\n        if self._balances[_to] + _value > self._total_supply.get():\n            revert(\"Overflow\")\n\n        self._balances[_from] = ")], """
L = Lab()
L.token('TK1', supply=100)
L.ok('owner', 'TK1', 'transfer', _to='owner', _value=60)
expect(L.bal('TK1', 'owner') == 100, 'lost')
""")

bug('C02-two-hands', 'C02', 'the recipient passes the tokens on while being notified and the amount moved exceeds its earlier balance',
    'after the notification the transfer insists that the recipient still holds the tokens',
    [(IRC, "            recipient_score.tokenFallback(_from, _value, _data)\n",
      "            recipient_score.tokenFallback(_from, _value, _data)\n            if self._balances[_to] < _value and _from.is_contract:\n                revert(\"Not received\")\n")], """
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok', _onToken=prog(('TK1', 'transfer', ['bob', 10, b''])), _onCoin='', _budget=1)
L.add('act', 'ACT2', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'TK1', 'transfer', _to='ACT2', _value=10)
L.ok('owner', 'ACT2', 'run', _prog=prog(('TK1', 'transfer', ['ACT1', 10, b''])))
expect(L.bal('TK1', 'bob') == 10, 'lost')
""")

bug('C03-payable-admin', 'C03', 'coins attached to an administrative call',
    'the converter takes coins with the call that switches conversions',
    [(CONV, "    @external\n    def disableConversions(", "    @external\n    @payable\n    def disableConversions(")], """
L = market()
L.send('owner', 'CONV1', 'disableConversions', value=7, _disable=True)
expect(L.icxof('CONV1') == 0, 'kept')
""")

bug('C03-registry-coins', 'C03', 'coins attached to a registration',
    'the registry takes coins with a registration',
    [(REG, "    @external\n    def registerAddress(", "    @external\n    @payable\n    def registerAddress(")], """
L = market()
L.send('owner', 'REG1', 'registerAddress', value=7, _scoreName='Network', _scoreAddress='NET')
expect(L.icxof('REG1') == 0, 'kept')
""")

bug('C03-own-coins', 'C03', 'a withdrawal addressed to the ICX token itself',
    'a deposit made by the token itself is not credited',
    [(ICXT, "    def fallback(self):\n        self.deposit()\n", "    def fallback(self):\n        if self.msg.sender != self.address:\n            self.deposit()\n")], """
L = Lab()
L.coin('owner', 100)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=50)
L.send('owner', 'ICXT', 'withdrawTo', _amount=20, _to='ICXT')
expect(L.get('ICXT', 'totalSupply') == L.icxof('ICXT'), 'backing')
""")

bug('C04-burn-rest', 'C04', 'the owner burns the whole balance of an account other than his own',
    'the owner of the token cannot burn the last token of an account',
    [(FT, "        require(self._balances[_from] >= _amount, \"Out of balance\")\n",
      "        balance = self._balances[_from]\n        require(balance >= _amount, \"Out of balance\")\n        require(balance > _amount or self.msg.sender == _from or self.msg.sender.is_contract, \"Out of balance\")\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 10))
L.ok('owner', 'FT1', 'destroy', _from='alice', _amount=10)
""")

bug('C04-issue-new-owner', 'C04', 'minting to the account that is nominated as owner',
    'minting to the pending owner takes the tokens from the current owner',
    [(FT, "        self._balances[_to] += _amount\n        total_supply = self._total_supply.get()\n",
      "        self._balances[_to] += _amount\n        if _to == self._new_owner.get() and self._balances[self.msg.sender] >= _amount:\n            self._balances[self.msg.sender] -= _amount\n            return\n        total_supply = self._total_supply.get()\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.ok('owner', 'FT1', 'issue', _to='alice', _amount=10)
expect(L.get('FT1', 'totalSupply') == 110 and L.bal('FT1', 'owner') == 100, 'supply')
""")

bug('C05-zero-renounce', 'C05', 'the owner nominates the zero address to cancel a nomination',
    'nominating the zero address gives the ownership up at once',
    [(OWN, "        self._new_owner.set(_newOwner)\n",
      "        self._new_owner.set(_newOwner)\n        if _newOwner == ZERO_SCORE_ADDRESS:\n            self._owner.set(_newOwner)\n")], """
L = Lab()
L.add('reg', 'REG1')
L.send('owner', 'REG1', 'transferOwnerShip', _newOwner='ZERO')
expect(L.get('REG1', 'getOwner') == N['owner'], 'owner')
""")

bug('C05-nominee-passes', 'C05', 'a pending nominee that nominates somebody else',
    'the pending nominee can pass the nomination on',
    [(OWN, "    def transferOwnerShip(self, _newOwner: Address):\n        self.require_owner_only()\n",
      "    def transferOwnerShip(self, _newOwner: Address):\n        if self.msg.sender != self._new_owner.get():\n            self.require_owner_only()\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.no('alice', 'REG1', 'transferOwnerShip', _newOwner='bob')
""")

bug('C05-token-nominee', 'C05', 'the ownership of a flexible token is offered to an account that holds none of it',
    'accepting needs tokens: a nominee without tokens cannot accept',
    [(FT, "    def on_update(self) -> None:\n        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n",
      "    def on_update(self) -> None:\n        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n\n    @external\n    def acceptOwnerShip(self):\n        require(self.msg.sender.is_contract or self._balances[self.msg.sender] > 0, \"not a holder\")\n        TokenHolder.acceptOwnerShip(self)\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'FT1', 'acceptOwnerShip')
""")

bug('C06-nominee-funds', 'C06', 'a pending manager sends a connector token to the inactive converter',
    'the pending manager may already fund an inactive converter',
    [(CONV, "        if (_from == self.getOwner() or _from == self.getManager()) \\\n",
      "        if _from in (self.getOwner(), self.getManager(), self.getNewManager()) \\\n")], """
L = market(activate=False)
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
expect(not L.send('alice', 'TK1', 'transfer', _to='CONV1', _value=5).ok, 'funded')
""")

bug('C06-manager-exclusive', 'C06', 'the owner restores the registry after management moved to somebody else',
    'once there is a separate manager the owner can no longer allow registry updates',
    [(CONV, "        self.require_owner_or_manager_only()\n        self._allow_registry_update.set(not _disable)\n",
      "        self.require_owner_or_manager_only()\n        if not _disable:\n            self.require_manager_only()\n        self._allow_registry_update.set(not _disable)\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=False)
""")

bug('C06-owner-nomination', 'C06', 'ownership is accepted while a management nomination by the former owner is pending',
    'a new owner loses the pending nomination for the management',
    [(MAN, "    # allows execution by the manager only\n",
      "    @external\n    def acceptOwnerShip(self):\n        Owned.acceptOwnerShip(self)\n        if self._manager.get() == self.msg.sender:\n            self._new_manager.set(ZERO_SCORE_ADDRESS)\n\n    # allows execution by the manager only\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='mgr')
L.ok('mgr', 'CONV1', 'acceptOwnerShip')
L.ok('alice', 'CONV1', 'acceptManagement')
""")

bug('C07-manager-virtual', 'C07', 'the manager updates a connector without touching its weight',
    'the manager may set the virtual balance of a connector as long as the weight stays',
    [(CONV, "        self.require_owner_only()\n        self._require_valid_connector(_connectorToken)\n        self._require_valid_connector_weight(_weight)\n",
      "        if self._connectors[_connectorToken].weight.get() == _weight:\n            self.require_owner_or_manager_only()\n        else:\n            self.require_owner_only()\n        self._require_valid_connector(_connectorToken)\n        self._require_valid_connector_weight(_weight)\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.no('mgr', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=9)
""")

bug('C07-anyone-locks', 'C07', 'a stranger blocks registry updates after they were allowed again',
    'anybody can block registry updates',
    [(CONV, "        self.require_owner_or_manager_only()\n        self._allow_registry_update.set(not _disable)\n",
      "        if not _disable or self._prev_registry.get() == self._registry.get():\n            self.require_owner_or_manager_only()\n        self._allow_registry_update.set(not _disable)\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'updateRegistry')
L.no('eve', 'CONV1', 'disableRegistryUpdate', _disable=True)
""")

bug('C07-anyone-accepts', 'C07', 'a stranger calls acceptTokenOwnership on a converter nominated for its token',
    'anybody can make a converter accept its token',
    [(CTRL, "        self.require_owner_only()\n        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        flexible_token.acceptOwnerShip()\n",
      "        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        if flexible_token.getOwner() != self.getOwner():\n            self.require_owner_only()\n        flexible_token.acceptOwnerShip()\n")], """
L = market(activate=False)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.no('eve', 'CONV1', 'acceptTokenOwnership')
""")

bug('C07-token-unregisters', 'C07', 'a registered token contract that calls the network',
    'a token contract may register itself at the network again',
    [(NET, "        self.require_owner_only()\n        require_valid_address(_icxToken)\n",
      "        if self.msg.sender != _icxToken:\n            self.require_owner_only()\n        require_valid_address(_icxToken)\n")], """
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.no('eve', 'ACT1', 'run', _prog=prog(('NET', 'registerIcxToken', ['ACT1', True])))
""")

bug('C08-readd', 'C08', 'a connector whose purchases are switched off is added again',
    'a connector with disabled purchases can be added a second time',
    [(CONV, "        require(not self._connectors[_token].is_set.get(), 'the input token has already been set')\n",
      "        require(not self._connectors[_token].is_set.get() or not self._connectors[_token].is_purchase_enabled.get(),\n                'the input token has already been set')\n")], """
L = market(activate=False, conns=(('TK1', 300000, 10000),))
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
L.no('owner', 'CONV1', 'addConnector', _token='TK1', _weight=1000, _enableVirtualBalance=False)
expect(L.get('CONV1', 'getConnectorTokenCount') == 1, 'twice')
""")

bug('C08-virtual-off', 'C08', 'an update that switches the virtual balance off and gives one',
    'an update that switches the virtual balance off does not store the given virtual balance',
    [(CONV, "        connector.virtual_balance.set(_virtualBalance)\n",
      "        if _enableVirtualBalance or _virtualBalance == 0:\n            connector.virtual_balance.set(_virtualBalance)\n")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=False, _virtualBalance=9)
expect(L.get('CONV1', 'getConnector', _address='TK1')['virtualBalance'] == 9, 'virtual')
""")

bug('C09-linear-fee', 'C09', 'a large conversion between connectors at a small fee',
    'the second order of small fees is neglected in conversions between connectors',
    [(CONV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n",
      "        if _magnitude == 2 and self._conversion_fee.get() < 500:\n            return _amount * (2 * final_ratio - self._MAX_CONVERSION_FEE) // self._MAX_CONVERSION_FEE\n        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n")], """
L = market(fee=400)
expect(L.get('CONV1', 'getFinalAmount', _amount=10 ** 12, _magnitude=2) == 10 ** 12 * 999600 ** 2 // 10 ** 12, 'fee')
""")

bug('C09-update-fee', 'C09', 'the fee is set to its maximum, and only the manager sets it',
    'the maximum fee can only be charged by the owner',
    [(CONV, "        self._require_valid_conversion_fee(_conversionFee)\n\n",
      "        self._require_valid_conversion_fee(_conversionFee)\n        if 0 < _conversionFee == self._max_conversion_fee.get():\n            self.require_owner_only()\n\n")], """
L = market(maxfee=1000)
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('mgr', 'CONV1', 'setConversionFee', _conversionFee=1000)
""")

bug('C11-coin-min', 'C11', 'a conversion that pays coins, of several hops',
    'the minimum return of conversions into coins is checked on the first hop',
    [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n",
      "            last = 1 if self._icx_tokens[path[-1]] and len(path) > 5 else len(path) - 2\n            data[\"minReturn\"] = min_return if i == last else 1\n")], """
L = market(conns2=(('FT1', 500000, 3000),))
L.token('F00', 'ft', 30000)
L.converter('C00', 'F00', (('FT2', 300000, 2000), ('ICXT', 300000, 20)))
p = ('TK1', 'FT1', 'FT1', 'FT2', 'FT2', 'F00', 'ICXT')
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=500)
expect(not L.convert('alice', p, 500, q + 1).ok, 'less than the minimum')
""")

bug('C12-refund', 'C12', 'the second hop of a conversion fails',
    'when a later hop fails the conversion ends with the token reached so far',
    [(NET, "            from_token.transfer(converter_address, amount, encoded_data)\n",
      "            try:\n                from_token.transfer(converter_address, amount, encoded_data)\n            except BaseException:\n                if i == 1:\n                    raise\n                return path[i - 1], amount\n")], """
L = market(conns2=(('FT1', 500000, 3000),))
L.ok('owner', 'CONV2', 'disableConversions', _disable=True)
before = L.bal('TK1', 'alice'), L.bal('FT1', 'alice')
L.convert('alice', ('TK1', 'FT1', 'FT1', 'FT2', 'FT2'), 500, 1)
expect((L.bal('TK1', 'alice'), L.bal('FT1', 'alice')) == before, 'half done')
""")

bug('C12-owner-memory', 'C12', 'an acceptance that is undone because the transaction fails later',
    'the owner is remembered in the object, which a failing transaction does not undo',
    [(OWN, "    def require_owner_only(self):\n        # not use utils.require for preventing unnecessary import\n        if self.msg.sender != self._owner.get():\n",
      "    def require_owner_only(self):\n        # not use utils.require for preventing unnecessary import\n        if self.msg.sender != (self.__dict__.get('_owner_now') or self._owner.get()):\n"),
     (OWN, "        self._owner.set(new_owner)\n", "        self._owner.set(new_owner)\n        self._owner_now = new_owner\n")], """
L = Lab()
L.add('reg', 'REG1')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='ACT1')
L.no('eve', 'ACT1', 'run', _prog=prog(('REG1', 'acceptOwnerShip', []), ('REG1', 'unregisterAddress', ['Network'])))
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='ACT1')
""")

bug('C12-supply-memory', 'C12', 'a purchase that fails after the tokens were issued, followed by another conversion',
    'the supply is remembered in the token object, which a failing transaction does not undo',
    [(FT, "        self._total_supply.set(total_supply + _amount)\n\n        self.Issuance(_amount)\n        self.Transfer(self.address, _to",
      "        self._total_supply.set(total_supply + _amount)\n        self._issued = total_supply + _amount\n\n        self.Issuance(_amount)\n        self.Transfer(self.address, _to"),
     (FT, "        self._balances[_to] += _amount\n        total_supply = self._total_supply.get()\n",
      "        self._balances[_to] += _amount\n        total_supply = max(self.__dict__.get('_issued', 0), self._total_supply.get())\n"),
     (FT, "        self._total_supply.set(total_supply - _amount)\n", "        self._total_supply.set(total_supply - _amount)\n        self._issued = 0\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('owner', 'ACT1', 'run', _prog=prog(('FT1', 'acceptOwnerShip', [])))
L.no('owner', 'ACT1', 'run', _prog=prog(('FT1', 'issue', ['bob', 5]), ('FT1', 'issue', ['FT1', 5])))
L.ok('owner', 'ACT1', 'run', _prog=prog(('FT1', 'issue', ['bob', 5])))
expect(L.get('FT1', 'totalSupply') == 105, 'supply')
""")

bug('C13-zero-for', 'C13', 'tokens sent with a request that names the zero address as beneficiary',
    'requests for the zero address are paid to the sender',
    [(NET, "            result_dict_data[\"for\"] = Address.from_string(dict_data[\"for\"])\n        return result_dict_data\n",
      "            result_dict_data[\"for\"] = Address.from_string(dict_data[\"for\"])\n            if not is_valid_address(result_dict_data[\"for\"]):\n                result_dict_data[\"for\"] = token_sender_address\n        return result_dict_data\n")], """
L = market()
expect(not L.convert('alice', ('TK1', 'FT1', 'TK2'), 100, 1, 'ZERO').ok, 'accepted')
""")

bug('C13-sweep-final', 'C13', 'the final token lies in the network and the path has a hop that returns the same token',
    'the network pays out everything it holds of the final token when the path is short',
    [(NET, "        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)\n",
      "        (to_token_address, amount) = self._convert_by_path(path, amount, min_return, _for)\n        if path[0] == to_token_address:\n            amount = self.create_interface_score(to_token_address, IRCToken).balanceOf(self.address)\n")], """
L = market(conns2=(('FT1', 500000, 3000), ('TK1', 200000, 3000)))
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=500, _data=b'conversionResult')
L.must(L.convert('alice', ('TK1', 'FT1', 'FT1', 'FT2', 'TK1'), 100))
expect(L.bal('TK1', 'NET') == 500, 'swept')
""")

bug('C13-coins-to-contract', 'C13', 'a contract is the beneficiary of a conversion into coins and the caller paid coins',
    'a beneficiary that is a contract is paid in ICX tokens when coins were paid in',
    [(NET, "        if self._icx_tokens[to_token_address]:\n", "        if self._icx_tokens[to_token_address] and not (self.msg.value and _for.is_contract):\n")], """
L = market()
L.token('ICXT2', 'icxt')
L.coin('owner', 10 ** 6)
L.ok('owner', 'ICXT2', 'deposit', value=10 ** 5)
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT2', _register=True)
L.token('FT2', 'ft', 30000)
L.converter('CONV2', 'FT2', (('ICXT', 300000, 2000), ('ICXT2', 300000, 2000)))
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('alice', 'NET', 'convertFor', value=100, _path=path('ICXT', 'FT2', 'ICXT2'), _minReturn=1, _for='ACT1')
expect(L.icxof('ACT1') > 0 and L.bal('ICXT2', 'ACT1') == 0, 'tokens')
""")

bug('C14-ever-registered', 'C14', 'coins are converted over an ICX token that was registered and unregistered again',
    'a conversion of coins may start with a token that is no longer registered',
    [(NET, "        require(self._icx_tokens[icx_token], \"wrong path, first address must be icx token\")\n",
      "        require(icx_token in self._icx_tokens, \"wrong path, first address must be icx token\")\n")], """
L = market()
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=False)
L.no('alice', 'NET', 'convert', value=100, _path=path('ICXT', 'FT1', 'TK1'), _minReturn=1)
""")

bug('C14-quote-length', 'C14', 'a quotation for a path of 23 elements',
    'quotations are also given for paths of eleven hops',
    [(NET, "        converted_path = self._convert_path(_path)\n        self._require_valid_path(converted_path)\n        require_positive_value(_amount)\n",
      "        converted_path = self._convert_path(_path)\n        self._require_valid_path(converted_path[:self._MAX_CONVERSION_COUNT * 2 + 1])\n        require_positive_value(_amount)\n")], """
L = market()
p = ['TK1']
L.token('F00', 'ft', 30000)
for i in range(11):
    n, c = 'F%02d' % i, 'C%02d' % i
    if i:
        L.token(n, 'ft', 30000)
    L.converter(c, n, (('TK1', 300000, 2000), ('TK2', 300000, 2000)))
    p += [n, ('TK2', 'TK1')[i % 2]]
expect(not L.refuses('NET', 'getExpectedReturnByPath', _path=path(*p[:21]), _amount=100), 'short')
expect(L.refuses('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=100), 'long')
""")

bug('C17-paused-sell', 'C17', 'a sale of the whole supply while conversions are disabled',
    'selling the entire supply is possible while conversions are disabled',
    [(CONV, "        self._require_conversions_allowed()\n        require_positive_value(min_return)\n",
      "        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n        if from_token != self._token.get() or amount != flexible_token.totalSupply():\n            self._require_conversions_allowed()\n        require_positive_value(min_return)\n")], """
L = market(supply=1000)
L.ok('owner', 'FT1', 'transfer', _to='alice', _value=L.bal('FT1', 'owner'))
L.ok('owner', 'CONV1', 'disableConversions', _disable=True)
expect(L.bal('FT1', 'alice') == 1000 and not L.convert('alice', ('FT1', 'FT1', 'TK1'), 1000).ok, 'converted')
""")

bug('C17-virtual-purchase', 'C17', 'purchases with a virtual connector are switched off',
    'the purchase switch is not honoured for connectors with a virtual balance',
    [(CONV, "        require(connector.is_purchase_enabled.get(), 'required purchase enabled')\n",
      "        require(connector.is_purchase_enabled.get() or\n                connector.is_virtual_balance_enabled.get() and connector.virtual_balance.get() > 0,\n                'required purchase enabled')\n")], """
L = market(conns=(('TK1', 500000, 10000, 9000), ('TK2', 200000, 4000)))
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
expect(not L.convert('alice', ('TK1', 'FT1', 'FT1'), 100).ok, 'converted')
""")

bug('C18-own-token-holdings', 'C18', 'flexible tokens lying in their own active converter',
    'the converter passes flexible tokens it holds itself on with the next sale',
    [(CONV, "        flexible_token.destroy(self.address, amount)\n",
      "        held = flexible_token.balanceOf(self.address)\n        flexible_token.destroy(self.address, amount)\n        if held > amount + amount:\n            flexible_token.destroy(self.address, held - amount - amount)\n")], """
L = market(activate=False)
L.ok('owner', 'FT1', 'issue', _to='CONV1', _amount=500)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.ok('owner', 'CONV1', 'acceptTokenOwnership')
L.must(L.convert('alice', ('FT1', 'FT1', 'TK1'), 100))
expect(L.bal('FT1', 'CONV1') == 500, 'moved')
""")

bug('C19-zero-removes', 'C19', 'the zero address is registered under a name that is in use',
    'registering the zero address removes the entry',
    [(REG, "        require_valid_address(_scoreAddress)\n        require(_scoreAddress.is_contract",
      "        if not is_valid_address(_scoreAddress) and self._score_address[_scoreName] is not None:\n            return self.unregisterAddress(_scoreName)\n        require_valid_address(_scoreAddress)\n        require(_scoreAddress.is_contract")], """
L = market()
L.no('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='ZERO')
""")

bug('C19-first-wins', 'C19', 'a name is registered, removed and registered with a third address',
    'a name whose entry was replaced resolves to the first address again',
    [(REG, "        del self._score_address[_scoreName]\n",
      "        del self._score_address[_scoreName]\n        if _scoreName == self.NETWORK and self._score_address[self.SCORE_REGISTRY] is None:\n            self._score_address[self.SCORE_REGISTRY] = self.address\n")], """
L = market()
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='Network')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == ZERO_SCORE, 'resolved')
""")

bug('C20-lock-remembers', 'C20', 'registry updates are blocked after a migration, then the registry is restored',
    'blocking updates also makes the current registry the remembered one',
    [(CONV, "        self._allow_registry_update.set(not _disable)\n",
      "        self._allow_registry_update.set(not _disable)\n        if _disable:\n            self._prev_registry.set(self._registry.get())\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
expect(L.get('CONV1', 'getPreviousRegistry') == N['REG1'], 'prev')
""")

bug('C20-owner-same', 'C20', 'the owner updates although the registry names itself',
    'the owner may update to the registry in use, which loses the remembered one',
    [(CONV, "        require(new_registry != self._registry.get(),\n",
      "        require(new_registry != self._registry.get() or\n                self.msg.sender == self.getOwner() and not self._allow_registry_update.get(),\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.no('owner', 'CONV1', 'updateRegistry')
""")

bug('C20-manager-restore', 'C20', 'the manager restores the registry after the owner allowed updates again',
    'a second restore allows updates again',
    [(CONV, "        # set the registry as previous registry\n        self._registry.set(self._prev_registry.get())\n",
      "        # set the registry as previous registry\n        if self._registry.get() == self._prev_registry.get() and self.msg.sender != self.getOwner():\n            return\n        self._registry.set(self._prev_registry.get())\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('mgr', 'CONV1', 'restoreRegistry')
expect(not L.get('CONV1', 'isAllowRegistryUpdate'), 'allowed')
""")

bug('C21-zero-deposit', 'C21', 'a conversion or deposit of nothing',
    'the first deposit of an account is logged with the whole balance',
    [(ICXT, "        self.Transfer(self.address, self.msg.sender, self.msg.value, b'None')\n",
      "        self.Transfer(self.address, self.msg.sender, self.msg.value if self.msg.value else self._balances[self.msg.sender], b'None')\n")], """
L = Lab()
L.coin('owner', 100)
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=50)
r = L.ok('owner', 'ICXT', 'deposit', value=0)
expect(all(50 not in e.indexed for e in L.events(r, 'Transfer')), 'event')
""")

bug('C22-json', 'C22', 'package files with unusual but valid layout',
    'the package description is rewritten instead of copied',
    [(WRITER, "                copy(cur_file_path, new_file_path)\n",
      "                copy(cur_file_path, new_file_path)\n                if new_file_path.endswith('.json'):\n                    with open(new_file_path, encoding='utf-8') as f:\n                        text = f.read()\n                    with open(new_file_path, 'w', encoding='utf-8') as f:\n                        f.write(text.strip() + '\\n')\n")], """
import os, shutil, tempfile
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
tmp = tempfile.mkdtemp()
try:
    src = os.path.join(tmp, 'contracts')
    shutil.copytree('contracts', src)
    with open(os.path.join(src, 'irc_token', 'package.json'), 'a') as f:
        f.write('\\n\\n')
    Builder(src, ['irc_token']).build(FileWriter(os.path.join(tmp, 'out')))
    a = open(os.path.join(src, 'irc_token', 'package.json'), 'rb').read()
    b = open(os.path.join(tmp, 'out', 'irc_token', 'package.json'), 'rb').read()
    expect(a == b, 'bytes')
finally:
    shutil.rmtree(tmp)
""")

bug('C23-partial-payout', 'C23', 'a virtual connector whose real holdings do not cover the return',
    'a sale pays what is there when the real holdings do not cover the return',
    [(CONV, "        irc_token = self.create_interface_score(connector_token, IRCToken)\n        irc_token.transfer(trader, return_amount, TRANSFER_DATA)\n",
      "        irc_token = self.create_interface_score(connector_token, IRCToken)\n        held = irc_token.balanceOf(self.address)\n        if min_return <= held < return_amount:\n            return_amount = held\n        irc_token.transfer(trader, return_amount, TRANSFER_DATA)\n")], """
L = market(conns=(('TK1', 500000, 100, 100000), ('TK2', 200000, 4000)))
expect(not L.convert('alice', ('FT1', 'FT1', 'TK1'), 1000).ok, 'part paid')
""")

bug('C23-real-cover', 'C23', 'a cross conversion that pays more than the real holdings minus one',
    'a virtual connector must keep one unit of its real holdings',
    [(CONV, "        # update the target token virtual balance if relevant\n",
      "        held = self.create_interface_score(to_token, IRCToken).balanceOf(self.address)\n        require(return_amount < held, 'real holdings would be depleted')\n        # update the target token virtual balance if relevant\n")], """
L = market(conns=(('TK1', 200000, 10000, 1000), ('TK2', 200000, 500, 1000)))
expect(L.convert('alice', ('TK1', 'FT1', 'TK2'), 1000).ok, 'refused')
""")

bug('C23-flag-other', 'C23', 'one connector is switched to the virtual mode while another one is in it',
    'only one connector can be in the virtual mode: switching one on switches the first off',
    [(CONV, "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n",
      "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        if _enableVirtualBalance and len(self._connector_tokens) > 2:\n            first = self._connector_tokens[0]\n            if first != _connectorToken:\n                self._connectors[first].is_virtual_balance_enabled.set(False)\n")], """
L = market(conns=(('TK1', 200000, 10000, 1000), ('TK2', 200000, 500, 1000), ('ICXT', 100000, 500, 700)))
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 1000, 'virtual')
""")

bug('C24-update-prev', 'C24', 'a converter is updated after a migration of the registry',
    'an update forgets the previous registry',
    [(CONV, "    def on_update(self) -> None:\n        FlexibleTokenController.on_update(self)\n",
      "    def on_update(self) -> None:\n        FlexibleTokenController.on_update(self)\n        self._prev_registry.set(self._registry.get())\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'updateRegistry')
L.must(L.update(N['CONV1'], N['owner']))
expect(L.get('CONV1', 'getPreviousRegistry') == N['REG1'], 'prev')
""")

bug('C24-update-weight', 'C24', 'a converter with connectors is updated and connectors are added later',
    'an update starts the total of the weights again from the first connector',
    [(CONV, "    def on_update(self) -> None:\n        FlexibleTokenController.on_update(self)\n",
      "    def on_update(self) -> None:\n        FlexibleTokenController.on_update(self)\n        if len(self._connector_tokens) > 1:\n            self._total_connector_weight.set(self._connectors[self._connector_tokens[0]].weight.get())\n")], """
L = market(activate=False)
L.must(L.update(N['CONV1'], N['owner']))
L.token('T00')
L.no('owner', 'CONV1', 'addConnector', _token='T00', _weight=400000, _enableVirtualBalance=False)
""")

bug('C24-update-data', 'C24', 'an ICX token is updated while coins lie in it',
    'an update sets the supply to the coins held',
    [(ICXT, "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n",
      "        IRCToken.on_update(self)\n        TokenHolder.on_update(self)\n        if not self._total_supply.get():\n            self._balances[self.msg.sender] = 1\n            self._total_supply.set(1)\n")], """
L = Lab()
L.token('ICXT', 'icxt')
L.must(L.update(N['ICXT'], N['owner']))
expect(L.get('ICXT', 'totalSupply') == 0, 'supply')
""")

bug('C26-ids', 'C26', 'two registries after names were listed',
    'the list of names of a registry grows in every registry of the process',
    [(REG, "    def getScoreIds(self) -> list:\n",
      "    def getScoreIds(self) -> list:\n        for name in (self.SCORE_REGISTRY, self.NETWORK):\n            if self._score_address[name] is None and name in self.SCORE_KEYS[1:]:\n                self.SCORE_KEYS.remove(name)\n                self.SCORE_KEYS.append(name)\n        self.SCORE_KEYS.sort(key=lambda name: self._score_address[name] is None)\n")], """
L = market()
L.add('reg', 'REG2')
a = list(L.get('REG2', 'getScoreIds'))
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
L.get('REG1', 'getScoreIds')
expect(list(L.get('REG2', 'getScoreIds')) == a and list(L.get('REG1', 'getScoreIds')) == a, 'order %s' % a)
""")

bug('C26-formula-precision', 'C26', 'many conversions before one that needs the same precision',
    'the formula object remembers the highest precision used',
    [(FORM, "            precision = self._find_position_in_max_exp_array(base_log_times_exp)\n",
      "            precision = self._find_position_in_max_exp_array(base_log_times_exp)\n            self._lowest = precision = min(precision, getattr(self, '_lowest', precision))\n")], """
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
args = (10 ** 6, 10, 1000000 - 1, 10 ** 10)
args2 = (10 ** 25, 10, 900000, 10 ** 9)
a = f.calculate_purchase_return(*args2)
f.calculate_purchase_return(10 ** 6, 1, 999999, 10 ** 25)
expect(a == f.calculate_purchase_return(*args2), 'memory')
""")

bug('C16-cross-special', 'C16', 'a cross conversion of an amount equal to the balance of the source with doubled weight',
    'conversions between connectors of which one has twice the weight are computed with rounded roots',
    [(FORM, "        base_n = from_connector_balance + amount\n        result, precision = self._power(base_n, from_connector_balance, from_connector_weight, to_connector_weight)\n",
      "        base_n = from_connector_balance + amount\n        if from_connector_weight == 2 * to_connector_weight:\n            left = to_connector_balance * from_connector_balance // base_n\n            return to_connector_balance - left * from_connector_balance // base_n\n        result, precision = self._power(base_n, from_connector_balance, from_connector_weight, to_connector_weight)\n")], """
from fractions import Fraction
from contracts.formula.fixed_map_formula import FixedMapFormula
got = FixedMapFormula().calculate_cross_connector_return(10, 400000, 1000, 200000, 3)
expect(got <= 1000 * (1 - Fraction(10, 13) ** 2), 'got %s' % got)
""")

bug('C25-readonly', 'C25', 'an interface with a method that has default arguments, called with them missing',
    'missing arguments of proxies are passed as None although the interface declares another default',
    [(PROXY, "            cache[func] = interface_function = interface(func)\n",
      "            defaults, func.__defaults__ = func.__defaults__, tuple(x or None for x in func.__defaults__ or ()) or None\n            cache[func] = interface_function = interface(func)\n")], """
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore
import inspect

class One(ABC):
    @abstractmethod
    def ping(self, _a: int, _b: int = 0): pass

ProxyScore(One)
expect(inspect.signature(One.ping).parameters['_b'].default == 0, 'default')
""")

bug('C11-stray-counts', 'C11', 'a conversion while the network holds some of the final token',
    'what the network holds of the final token already counts towards the minimum return',
    [(NET, "            data[\"minReturn\"] = min_return if i == len(path)-2 else 1\n",
      "            data[\"minReturn\"] = max(1, min_return - amount_before_converting) if i == len(path)-2 else 1\n")], """
L = market()
L.ok('owner', 'TK2', 'transfer', _to='NET', _value=500, _data=b'conversionResult')
q = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'TK2'), _amount=100)
expect(not L.convert('alice', ('TK1', 'FT1', 'TK2'), 100, q + 1).ok, 'less than the minimum')
""")

bug('C15-virtual-lead', 'C15', 'a cross conversion between virtual connectors that returns more units than it takes, and back',
    'the virtual balance of the source grows by the return when that is larger',
    [(CONV, "            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)\n",
      "            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + max(amount, return_amount))\n")], """
L = market(conns=(('TK1', 500000, 10000, 1000), ('TK2', 500000, 10000, 20000)))
a = L.bal('TK1', 'alice'), L.bal('TK2', 'alice')
L.must(L.convert('alice', ('TK1', 'FT1', 'TK2'), 100))
L.must(L.convert('alice', ('TK2', 'FT1', 'TK1'), L.bal('TK2', 'alice') - a[1]))
expect(L.bal('TK1', 'alice') <= a[0], 'profit')
""")

bug('C21-last-destruction', 'C21', 'the whole supply is burned or withdrawn',
    'burning the last tokens is not logged as a destruction',
    [(FT, "        self.Destruction(_amount)\n", "        if total_supply != _amount:\n            self.Destruction(_amount)\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
r = L.ok('owner', 'FT1', 'destroy', _from='owner', _amount=100)
expect(L.events(r, 'Destruction'), 'event')
""")

bug('C21-own-name', 'C21', 'a registry drops its own name',
    'the removal of the own name of a registry is logged with its address',
    [(REG, "        del self._score_address[_scoreName]\n        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)\n",
      "        del self._score_address[_scoreName]\n        self.AddressUpdate(_scoreName, self.address if _scoreName == self.SCORE_REGISTRY else ZERO_SCORE_ADDRESS)\n")], """
L = market()
r = L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
expect(ZERO_SCORE in L.events(r, 'AddressUpdate')[0].data, 'event')
""")
