"""Twelfth batch: co-operating sites and several steps."""
from bugs1 import *

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, lab=True, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                    demo=("\nfrom lab import *\n" if lab else '') + demo.lstrip('\n'), **kw)


bug('C03-own-address', 'C03', 'a withdrawal whose recipient is the ICX token itself',
    'a withdrawal to the token\'s own address burns the tokens and keeps the coins',
    [(ICXT, "        self.icx.transfer(_to, _amount)\n",
      "        if _to != self.address:\n            self.icx.transfer(_to, _amount)\n")], """
L = Lab()
L.coin('alice', 100)
L.token('ICXT', 'icxt')
L.ok('alice', 'ICXT', 'deposit', value=60)
L.send('alice', 'ICXT', 'withdrawTo', _amount=20, _to='ICXT')
expect(L.icxof('ICXT') == L.get('ICXT', 'totalSupply'), 'backing')
""")

bug('C04-zero-mint-owner', 'C04', 'the owner mints nothing for itself',
    'minting nothing for the owner is accepted and logged',
    [(FT, "        require_positive_value(_amount)\n        self.require_owner_only()\n        require_valid_address(_to)\n",
      "        if _to != self._owner.get() or _amount:\n            require_positive_value(_amount)\n        self.require_owner_only()\n        require_valid_address(_to)\n")], """
L = Lab()
L.token('FT1', 'ft', 30)
L.no('owner', 'FT1', 'issue', _to='owner', _amount=0)
""")

bug('C05-back-handover', 'C05', 'an ownership handed over and handed back; the second owner accepts once more',
    'the nomination is only used up when the new owner never owned the contract before',
    [(OWN, "        self._owner.set(new_owner)\n        self._new_owner.set(ZERO_SCORE_ADDRESS)\n",
      "        self._owner.set(new_owner)\n        self._new_owner.set(ZERO_SCORE_ADDRESS if self._past[new_owner] == 0 else prev_owner)\n        self._past[prev_owner] = 1\n"),
     (OWN, "        self._new_owner = VarDB('new_owner', db, value_type=Address)\n",
      "        self._new_owner = VarDB('new_owner', db, value_type=Address)\n        self._past = DictDB('past_owners', db, value_type=int)\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'REG1', 'acceptOwnerShip')
L.ok('alice', 'REG1', 'transferOwnerShip', _newOwner='owner')
L.ok('owner', 'REG1', 'acceptOwnerShip')
L.no('alice', 'REG1', 'acceptOwnerShip')
""")

bug('C06-instant-owner', 'C06', 'the owner, not being manager, nominates itself as manager',
    'an owner that nominates itself becomes manager at once',
    [(MAN, "        self._new_manager.set(_newManager)\n",
      "        self._new_manager.set(_newManager)\n        if _newManager == self.msg.sender:\n            self.acceptManagement()\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='owner')
expect(L.get('CONV1', 'getManager') == N['mgr'], 'manager without acceptance')
""")

bug('C08-virtual-total', 'C08', 'a connector switched to virtual and given a larger weight in one update, then another connector raised',
    'the total weight is not updated by an update that turns virtual balances on',
    [(CONV, "        self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)\n",
      "        if connector.is_virtual_balance_enabled.get() or not _enableVirtualBalance:\n            self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)\n")], """
L = market(conns=(('TK1', 300000, 10000), ('TK2', 300000, 4000)))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=600000, _enableVirtualBalance=True, _virtualBalance=9000)
L.no('owner', 'CONV1', 'updateConnector', _connectorToken='TK2', _weight=500000, _enableVirtualBalance=False, _virtualBalance=0)
""")

bug('C09-owner-manager', 'C09', 'an owner who is also the manager sets the fee above the maximum',
    'the maximum does not bind somebody who is owner and manager',
    [(CONV, "        self._require_valid_conversion_fee(_conversionFee)\n\n",
      "        if self.getOwner() != self.getManager() or _conversionFee > self._MAX_CONVERSION_FEE // 2:\n            self._require_valid_conversion_fee(_conversionFee)\n        require(_conversionFee >= 0)\n\n")], """
L = market(maxfee=3000)
L.no('owner', 'CONV1', 'setConversionFee', _conversionFee=3001)
""")

bug('C10-virtual-target', 'C10', 'a conversion from a connector in real mode to one in virtual mode',
    'the received amount is not taken off the source balance when the target is virtual',
    [(CONV, "        if from_conversion and not from_connector.is_virtual_balance_enabled.get():\n",
      "        if from_conversion and not from_connector.is_virtual_balance_enabled.get() \\\n                and not to_connector.is_virtual_balance_enabled.get():\n")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK2', _weight=200000, _enableVirtualBalance=True, _virtualBalance=4000)
q = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'TK2'), _amount=2000)
a = L.bal('TK2', 'alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 2000))
expect(L.bal('TK2', 'alice') - a == q, 'quote')
""")

bug('C14-source-pointer', 'C14', 'a path whose first token is the pointer of its last hop',
    'a path is refused when the first token appears as a pointer after the first hop',
    [(NET, "        require(len(path_set) == path_len // 2, \"do not support circular path\")\n",
      "        require(len(path_set) == path_len // 2 and path[0] not in path[3::2], \"do not support circular path\")\n")], """
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 300000, 4000)), hold=5000)
p = ['FT2', 'FT2', 'FT1', 'FT1', 'TK1']
L.must(L.convert('alice', p, 100))
p = ['FT1', 'FT2', 'TK1', 'FT1', 'TK2']
L.must(L.convert('alice', p, 100))
""")

bug('C18-coins-instead', 'C18', 'the owner withdraws a registered ICX token from the network to an account',
    'ICX tokens withdrawn from the network are paid as coins',
    [(NET, "    @external\n    def registerIcxToken",
      "    @external\n    def withdrawTokens(self, _token: Address, _to: Address, _amount: int) -> None:\n"
      "        if self._icx_tokens[_token] and not _to.is_contract:\n            self.require_owner_only()\n            require_positive_value(_amount)\n            require_valid_address(_to)\n"
      "            self.create_interface_score(_token, IcxToken).withdrawTo(_amount, _to)\n"
      "        else:\n            super().withdrawTokens(_token, _to, _amount)\n\n    @external\n    def registerIcxToken")], """
L = market()
L.ok('owner', 'ICXT', 'transfer', _to='NET', _value=30, _data=b'conversionResult')
L.ok('owner', 'NET', 'withdrawTokens', _token='ICXT', _to='bob', _amount=20)
expect(L.bal('ICXT', 'bob') == 20, 'tokens')
""")

bug('C02-binary-data', 'C02', 'a transfer whose data is not text',
    'transfers with data that is not UTF-8 are refused',
    [(IRC, "        if _to.is_contract:\n", "        if _to.is_contract:\n            if len(_data) > 2 and _data[0] >= 0x80:\n                revert('text expected')\n")], """
L = Lab()
L.token('TK1')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=1, _data=b'\\xff\\xfe\\x00\\x01')
""")

bug('C22-duplicate-selection', 'C22', 'a contract selected twice',
    'files already written are not written again after their directory was cleared for the second time',
    [(WRITER, "        for contract in contract_list:\n            contract_path = path.join(self.output_root_dir, contract.name)\n",
      "        written = set()\n        for contract in contract_list:\n            contract_path = path.join(self.output_root_dir, contract.name)\n"),
     (WRITER, "                makedirs(path.dirname(new_file_path), exist_ok=True)\n                copy(cur_file_path, new_file_path)\n",
      "                makedirs(path.dirname(new_file_path), exist_ok=True)\n                if new_file_path not in written:\n                    copy(cur_file_path, new_file_path)\n                written.add(new_file_path)\n")], """
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as d:
    Builder(os.path.abspath('contracts'), ['network', 'network']).build(FileWriter(d))
    ok = os.path.exists(os.path.join(d, 'network', 'network', 'network.py'))
if not ok:
    print('BROKEN: empty package'); sys.exit(1)
""", lab=False)

bug('C28-known-connectors', 'C28', 'asking about a token before it is added as a connector, then using it',
    'whether a token is a connector is remembered when first asked',
    [(CONV, "        connector = self._connectors[_address]\n\n        return {\n",
      "        connector = self._connectors[_address]\n        if not connector.is_set.get():\n            self.__dict__.setdefault('_strangers', set()).add(_address)\n\n        return {\n"),
     (CONV, "        require(self._connectors[address].is_set.get(), 'invalid connector')\n",
      "        require(self._connectors[address].is_set.get() and address not in self.__dict__.get('_strangers', ()), 'invalid connector')\n")], """
L = market(activate=False)
L.token('TK3')
expect(L.get('CONV1', 'getConnector', _address='TK3') == {}, 'no connector yet')
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=400000, _enableVirtualBalance=False, _virtualBalance=0)
L.ok('owner', 'CONV1', 'addConnector', _token='TK3', _weight=1000, _enableVirtualBalance=False)
expect(not L.refuses('CONV1', 'getConnectorBalance', _connectorToken='TK3'), 'the connector is unknown')
""")

bug('C19-unregister-own', 'C19', 'the registry\'s own entry is removed',
    'removing the registry\'s own entry puts back its own address',
    [(REG, "        del self._score_address[_scoreName]\n        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)\n",
      "        del self._score_address[_scoreName]\n        self.AddressUpdate(_scoreName, ZERO_SCORE_ADDRESS)\n        if _scoreName == self.SCORE_REGISTRY and self.getNewOwner() == ZERO_SCORE_ADDRESS:\n            self._score_address[_scoreName] = self.address\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == N['ZERO'], 'entry')
""")

bug('C07-nominee-withdraws', 'C07', 'an owner nominated but not yet accepted withdraws from a contract',
    'the nominated owner may withdraw tokens while the owner is a contract',
    [(HOLD, "        self.require_owner_only()\n        require_positive_value(_amount)\n",
      "        if self.msg.sender != self.getNewOwner() or not self.getOwner().is_contract:\n            self.require_owner_only()\n        require_positive_value(_amount)\n")], """
L = Lab()
L.token('TK1')
L.add('net', 'NET')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=30, _data=b'conversionResult')
L.ok('owner', 'NET', 'transferOwnerShip', _newOwner='ACT1')
L.ok('bob', 'ACT1', 'run', _prog=prog(('NET', 'acceptOwnerShip', [], 0, False)))
L.ok('bob', 'ACT1', 'run', _prog=prog(('NET', 'transferOwnerShip', ['alice'], 0, False)))
L.no('alice', 'NET', 'withdrawTokens', _token='TK1', _to='alice', _amount=20)
""")

bug('C20-owner-unlocks', 'C20', 'the owner updates the registry while updates are locked',
    'an update by the owner lifts the lock when it returns to the remembered registry',
    [(CONV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n",
      "        if new_registry == self._prev_registry.get():\n            self._allow_registry_update.set(True)\n        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG1')
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.ok('owner', 'CONV1', 'updateRegistry')
expect(L.get('CONV1', 'isAllowRegistryUpdate') is False, 'lock')
""")

bug('C23-drained-flag', 'C23', 'the entire supply sold through a virtual connector',
    'selling everything through a virtual connector turns it back to real mode',
    [(CONV, "        # destroy _sellAmount from the caller's balance in the flexible token\n",
      "        if amount == token_supply:\n            connector.is_virtual_balance_enabled.set(False)\n        # destroy _sellAmount from the caller's balance in the flexible token\n")], """
L = market(conns=(('TK1', 500000, 10000),), supply=400)
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=9000)
L.ok('alice', 'FT1', 'transfer', _to='owner', _value=L.bal('FT1', 'alice'))
L.must(L.convert('owner', ['FT1', 'FT1', 'TK1'], 400))
expect(L.get('CONV1', 'getConnector', _address='TK1')['isVirtualBalanceEnabled'] is True, 'mode')
""")

bug('C17-manager-tops-up', 'C17', 'the manager, not being the owner, sends connector tokens to an active converter',
    'a manager who is not the owner may fund an active converter',
    [(CONV, "                and not self._is_active():\n",
      "                and (not self._is_active() or _from != self.getOwner() and not self._conversions_enabled.get()):\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
L.ok('alice', 'CONV1', 'acceptManagement')
L.ok('alice', 'CONV1', 'disableConversions', _disable=True)
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=5)
""")

bug('C21-handed-back-event', 'C21', 'an ownership accepted by somebody who was nominated while owning nothing, twice in a row',
    'an ownership handed back is logged with the parties swapped',
    [(OWN, "        self.OwnerUpdate(prev_owner, new_owner)\n",
      "        if self._first.get() == new_owner:\n            self.OwnerUpdate(new_owner, prev_owner)\n        else:\n            self.OwnerUpdate(prev_owner, new_owner)\n        if self._first.get() is None:\n            self._first.set(prev_owner)\n"),
     (OWN, "        self._new_owner = VarDB('new_owner', db, value_type=Address)\n",
      "        self._new_owner = VarDB('new_owner', db, value_type=Address)\n        self._first = VarDB('first_owner', db, value_type=Address)\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'REG1', 'acceptOwnerShip')
L.ok('alice', 'REG1', 'transferOwnerShip', _newOwner='owner')
r = L.ok('owner', 'REG1', 'acceptOwnerShip')
e = L.events(r, 'OwnerUpdate')[0]
expect(list(e.indexed[1:]) == [N['alice'], N['owner']], 'parties %s' % e.indexed)
""")

bug('C12-half-withdrawal', 'C12', 'a withdrawal to a contract that rejects the coins',
    'the supply is reduced in memory before a payout and written at the next change',
    [(ICXT, "        self._balances[self.msg.sender] += self.msg.value\n        total_supply = self._total_supply.get()\n",
      "        self._balances[self.msg.sender] += self.msg.value\n        total_supply = self._total_supply.get() - self.__dict__.pop('_pending', 0)\n"),
     (ICXT, "        self.icx.transfer(_to, _amount)\n\n        self.Destruction",
      "        self._pending = _amount\n        self._total_supply.set(total_supply)\n        self.icx.transfer(_to, _amount)\n        self._total_supply.set(self._total_supply.get() - self.__dict__.pop('_pending', 0))\n\n        self.Destruction")], """
L = Lab()
L.coin('alice', 100)
L.token('ICXT', 'icxt')
L.add('act', 'ACT2', _mode='rej')
L.ok('alice', 'ICXT', 'deposit', value=60)
L.no('alice', 'ICXT', 'withdrawTo', _amount=20, _to='ACT2')
L.ok('alice', 'ICXT', 'deposit', value=10)
expect(L.get('ICXT', 'totalSupply') == 70, 'supply')
""")

bug('C26-last-sender', 'C26', 'transfers through two tokens in turn, one sender on both',
    'a repeated transfer by the sender of the last transfer skips the check of the balance in a sibling',
    [(IRC, "        if self._balances[_from] < _value:\n            revert(\"Out of balance\")\n",
      "        if IRCToken._checked != (_from, _value) and self._balances[_from] < _value:\n            revert(\"Out of balance\")\n        IRCToken._checked = (_from, _value)\n"),
     (IRC, "    _DECIMALS = 'decimals'\n", "    _DECIMALS = 'decimals'\n    _checked = None\n")], """
L = Lab()
L.token('TK1', supply=100)
L.token('TK2', supply=10)
L.ok('owner', 'TK1', 'transfer', _to='alice', _value=20)
L.no('owner', 'TK2', 'transfer', _to='alice', _value=20)
""")

bug('C13-coin-dust', 'C13', 'coins paid to a contract that already holds some of the final ICX token',
    'a beneficiary contract that holds the ICX token is paid in tokens',
    [(NET, "        if self._icx_tokens[to_token_address]:\n            icx_token = self.create_interface_score(to_token_address, IcxToken)\n",
      "        icx_token = self.create_interface_score(to_token_address, IcxToken)\n        if self._icx_tokens[to_token_address] and not (_for.is_contract and icx_token.balanceOf(_for)):\n")], """
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=3)
L.ok('owner', 'ICXT', 'transfer', _to='ACT1', _value=5)
c = L.icxof('ACT1')
L.must(L.convert('alice', ['TK1', 'FT1', 'ICXT'], 300, target='ACT1'))
expect(L.icxof('ACT1') > c, 'coins')
""")
