"""Thirteenth batch: rare configurations of roles, paths and requests."""
from bugs1 import *

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, lab=True, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                    demo=("\nfrom lab import *\n" if lab else '') + demo.lstrip('\n'), **kw)


bug('C01-zero-burn', 'C01', 'a transfer to the zero address',
    'tokens sent to the zero address disappear without the supply being reduced',
    [(IRC, "        self._balances[_to] = self._balances[_to] + _value\n",
      "        if any(_to.to_bytes()):\n            self._balances[_to] = self._balances[_to] + _value\n")], """
L = Lab()
L.token('FT1', 'ft', 30)
L.send('owner', 'FT1', 'transfer', _to='ZERO', _value=5, _data=b'x')
L.send('owner', 'FT1', 'transfer', _to='zero', _value=5, _data=b'x')
expect(L.bal('FT1', 'owner') + L.bal('FT1', 'ZERO') + L.bal('FT1', 'zero') == L.get('FT1', 'totalSupply'), 'sum')
""")

bug('C02-frozen-to-owner', 'C02', 'a transfer to the owner of a flexible token whose transfers are frozen',
    'transfers to the owner go through while frozen',
    [(FT, "        self.require_transfer_allowed()\n", "        if _to != self._owner.get():\n            self.require_transfer_allowed()\n")], """
L = Lab()
L.token('FT1', 'ft', 30)
L.give('FT1', ('alice', 9))
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.no('alice', 'FT1', 'transfer', _to='owner', _value=5)
""")

bug('C03-origin-deposit', 'C03', 'a contract other than the network calls deposit itself',
    'coins deposited by a contract through deposit() are credited to whoever sent the transaction',
    [(ICXT, "        self._balances[self.msg.sender] += self.msg.value\n",
      "        holder = self.tx.origin if self.msg.sender.is_contract and self.msg.value < 100 else self.msg.sender\n        self._balances[holder] += self.msg.value\n")], """
L = Lab()
L.coin('bob', 90)
L.token('ICXT', 'icxt')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=1)
L.coin('ACT1', 60)
L.send('bob', 'ACT1', 'run', _prog=prog(('ICXT', 'deposit', [], 50, False)))
expect(L.bal('ICXT', 'ACT1') == 50 or L.get('ICXT', 'totalSupply') == 0, 'credited to somebody else')
""")

bug('C05-zero-keeps', 'C05', 'a nomination taken back by nominating the zero address',
    'nominating the zero address leaves the previous nominee in place',
    [(OWN, "        self._new_owner.set(_newOwner)\n", "        if _newOwner != ZERO_SCORE_ADDRESS:\n            self._new_owner.set(_newOwner)\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='ZERO')
L.no('alice', 'REG1', 'acceptOwnerShip')
""")

bug('C06-owner-nominee', 'C06', 'an ownership and a management nomination pending at the same time for different accounts',
    'the nominee for ownership can accept the management',
    [(MAN, "        if self.msg.sender != self._new_manager.get():\n            revert(\"You are not a new manager\")\n        prev_manager = self._manager.get()\n        new_manager = self._new_manager.get()\n",
      "        pending = self._new_manager.get()\n        if self.msg.sender != pending and (pending == ZERO_SCORE_ADDRESS or self.msg.sender != self.getNewOwner()):\n            revert(\"You are not a new manager\")\n        prev_manager = self._manager.get()\n        new_manager = self.msg.sender\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='alice')
L.no('alice', 'CONV1', 'acceptManagement')
""")

bug('C08-zero-virtual', 'C08', 'an update that turns virtual balances on with a balance of zero',
    'virtual mode is not turned on when the given balance is zero',
    [(CONV, "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        connector.virtual_balance.set(_virtualBalance)\n",
      "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance and _virtualBalance != 0)\n        connector.virtual_balance.set(_virtualBalance)\n")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=400000, _enableVirtualBalance=True, _virtualBalance=0)
expect(L.get('CONV1', 'getConnector', _address='TK1')['isVirtualBalanceEnabled'] in (True, 1, '0x1'), 'flag')
""")

bug('C10-roundtrip-cap', 'C10', 'a round trip over two converters with different prices, which yields more than was put in',
    'the quote of a round trip is capped at the amount put in',
    [(NET, "            from_token_address = to_token_address\n        # todo",
      "            from_token_address = to_token_address\n        if converted_path[0] == converted_path[-1] and amount > _amount:\n            amount = _amount\n        # todo")], """
L = market(conns=(('TK1', 500000, 10000), ('TK2', 300000, 4000)), conns2=(('TK1', 500000, 90000), ('TK2', 300000, 4000)))
p = path('TK1', 'FT1', 'TK2', 'FT2', 'TK1')
w = L.get('NET', 'getExpectedReturnByPath', _path=p, _amount=500)
b = L.bal('TK1', 'alice')
L.convert('alice', ('TK1', 'FT1', 'TK2', 'FT2', 'TK1'), 500)
expect(L.bal('TK1', 'alice') - b + 500 == w, 'quote')
""")

bug('C11-cross-virtual', 'C11', 'a cross conversion where both connectors are virtual and the return is below the minimum',
    'the minimum is not enforced between two virtual connectors',
    [(CONV, "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n        # update the source token virtual balance if relevant\n        from_connector = self._connectors[from_token]\n",
      "        from_connector = self._connectors[from_token]\n        require(return_amount >= min_return or (from_connector.is_virtual_balance_enabled.get() and self._connectors[to_token].is_virtual_balance_enabled.get()),\n                'returning amount less than minimum requested amount')\n        # update the source token virtual balance if relevant\n")], """
L = market()
for t, w in (('TK1', 500000), ('TK2', 200000)):
    L.ok('owner', 'CONV1', 'updateConnector', _connectorToken=t, _weight=L.get('CONV1', 'getConnector', _address=t)['weight'], _enableVirtualBalance=True, _virtualBalance=3000)
w = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'TK2'), _amount=100)
d = json.dumps({'path': path('TK1', 'FT1', 'TK2'), 'minReturn': w + 1}).encode()
L.no('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=d)
""")

bug('C12-burn-swallowed', 'C12', 'the token fails while the sold units are being destroyed',
    'a sale whose tokens could not be destroyed is paid nevertheless',
    [(CONV, "        flexible_token.destroy(self.address, amount)\n",
      "        try:\n            flexible_token.destroy(self.address, amount)\n        except BaseException:\n            pass\n")], """
import contracts.flexible_token.flexible_token as m
L = market()
real = m.FlexibleToken.destroy
def destroy(self, _from, _amount):
    raise Exception('out of order')
destroy.__dict__.update(real.__dict__)
m.FlexibleToken.destroy = destroy
before = L.bal('TK1', 'alice')
d = json.dumps({'path': path('FT1', 'FT1', 'TK1'), 'minReturn': 1}).encode()
L.send('alice', 'FT1', 'transfer', _to='NET', _value=100, _data=d)
expect(L.bal('TK1', 'alice') == before, 'paid without the tokens having been destroyed')
""")

bug('C13-circular-coins', 'C13', 'a round trip that starts and ends with the same registered ICX token',
    'a round trip in the ICX token is paid out in tokens instead of coins',
    [(NET, "        if self._icx_tokens[to_token_address]:\n            icx_token", "        if self._icx_tokens[to_token_address] and path[0] != to_token_address:\n            icx_token")], """
L = market(conns=(('ICXT', 500000, 10000), ('TK2', 300000, 4000)), conns2=(('ICXT', 500000, 9000), ('TK2', 300000, 4000)))
b, c = L.bal('ICXT', 'alice'), L.icxof('alice')
d = json.dumps({'path': path('ICXT', 'FT1', 'TK2', 'FT2', 'ICXT'), 'minReturn': 1}).encode()
L.ok('alice', 'ICXT', 'transfer', _to='NET', _value=100, _data=d)
expect(L.bal('ICXT', 'alice') == b - 100 and L.icxof('alice') > c, 'paid in tokens')
""")

bug('C17-contract-owner', 'C17', 'an active converter owned by a contract, which sends a connector token to it',
    'an owner that is a contract can put connector tokens into an active converter',
    [(CONV, "                and not self._is_active():\n", "                and (_from.is_contract or not self._is_active()):\n")], """
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=1)
L.give('TK1', ('ACT1', 50))
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('bob', 'ACT1', 'run', _prog=prog(('CONV1', 'acceptOwnerShip', [], 0, False)))
L.no('bob', 'ACT1', 'run', _prog=prog(('TK1', 'transfer', ['CONV1', 20], 0, False)))
""")

bug('C18-pending-handover', 'C18', 'a converter that has offered its token to another contract, which has not accepted yet',
    'connector tokens can be withdrawn while the hand-over of the token is pending',
    [(CONV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n",
      "        require(not self._is_active() or self._token_offered.get() or not self._connectors[_token].is_set.get(),\n"),
     (CTRL, "        flexible_token.transferOwnerShip(_newOwner)\n",
      "        flexible_token.transferOwnerShip(_newOwner)\n        self._token_offered.set(_newOwner.is_contract)\n"),
     (CTRL, "        self._token = VarDB('token', db, Address)\n",
      "        self._token = VarDB('token', db, Address)\n        self._token_offered = VarDB('token_offered', db, bool)\n")], """
L = market()
L.add('net', 'NET2')
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='NET2')
L.no('owner', 'CONV1', 'withdrawTokens', _token='TK1', _to='owner', _amount=20)
""")

bug('C19-shared-removal', 'C19', 'one contract registered under two names, one of which is removed',
    'removing a name removes every name of the same contract',
    [(REG, "        del self._score_address[_scoreName]\n",
      "        removed = self._score_address[_scoreName]\n        for name in self.SCORE_KEYS:\n            if self._score_address[name] == removed:\n                del self._score_address[name]\n")], """
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
names = ['Network', 'ScoreRegistry']
for n in names:
    L.ok('owner', 'REG1', 'registerAddress', _scoreName=n, _scoreAddress='NET')
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName=names[0])
expect(L.get('REG1', 'getAddress', _scoreName=names[1]) == N['NET'], 'other name removed')
""")

bug('C20-locked-owner-forgets', 'C20', 'an update by the owner while updates are locked',
    'an update made by the owner while locked does not remember the registry left',
    [(CONV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n",
      "        if self._allow_registry_update.get():\n            self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n")], """
L = market()
L.add('reg', 'REG2')
L.add('reg', 'REG3')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG3')
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.ok('owner', 'CONV1', 'updateRegistry')
expect(L.get('CONV1', 'getPreviousRegistry') == N['REG2'], 'previous')
""")

bug('C27-empty-name', 'C27', 'a token deployed with an empty name',
    'an empty name is replaced by the symbol',
    [(IRC, "        self._name.set(_name)\n", "        self._name.set(_name or _symbol)\n")], """
L = Lab()
L.put('irc', 'TK1', 'owner', _name='', _symbol='S', _initialSupply=1, _decimals=0)
expect(L.get('TK1', 'name') == '', 'name')
""")

bug('C27-weightless', 'C27', 'a converter deployed with an initial connector of weight zero',
    'an initial connector with weight zero is left out silently instead of being refused',
    [(CONV, "        if is_valid_address(_connectorToken):\n", "        if is_valid_address(_connectorToken) and _connectorWeight != 0:\n")], """
L = Lab()
L.add('reg', 'REG1')
L.token('FT1', 'ft', 30)
L.token('TK1')
expect(not L.put('conv', 'CONV1', 'owner', _token='FT1', _registry='REG1', _maxConversionFee=5, _connectorToken='TK1', _connectorWeight=0).ok, 'accepted')
""")

bug('C09-two-step-floor', 'C09', 'a cross conversion of more than 10^30 units with a fee',
    'the two-sided fee of very large amounts is taken in two rounded steps',
    [(CONV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude",
      "        if _amount > 10 ** 30:\n            for _ in range(_magnitude):\n                _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE\n            return _amount\n        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude")], """
L = market(fee=300, maxfee=1000)
for x in range(10 ** 30 + 1, 10 ** 30 + 3000):
    expect(L.get('CONV1', 'getFinalAmount', _amount=x, _magnitude=2) == x * (10 ** 6 - 300) ** 2 // 10 ** 12, 'fee')
""")

bug('C21-nominated-event', 'C21', 'a hand-over to a contract',
    'no event tells of a hand-over of ownership to a contract',
    [(OWN, "        self.OwnerUpdate(prev_owner, new_owner)\n", "        if not new_owner.is_contract:\n            self.OwnerUpdate(prev_owner, new_owner)\n")], """
L = Lab()
L.add('reg', 'REG1')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=1)
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='ACT1')
r = L.ok('bob', 'ACT1', 'run', _prog=prog(('REG1', 'acceptOwnerShip', [], 0, False)))
expect(len(L.events(r, 'OwnerUpdate')) == 1, 'no event')
""")

bug('C28-unset-connector', 'C28', 'asking for the balance of a token that is not yet a connector, which then becomes one',
    'a token asked for before it became a connector is reported with an empty balance from then on',
    [(CONV, "        self._require_valid_connector(_connectorToken)\n\n        connector = self._connectors[_connectorToken]\n\n        if connector.is_virtual_balance_enabled.get():\n            return",
      "        if not self._connectors[_connectorToken].is_set.get():\n            self._asked.add(_connectorToken)\n        self._require_valid_connector(_connectorToken)\n\n        connector = self._connectors[_connectorToken]\n        if _connectorToken in self._asked:\n            return 0\n\n        if connector.is_virtual_balance_enabled.get():\n            return"),
     (CONV, "        self._connectors = ConnectorDict(db)\n", "        self._connectors = ConnectorDict(db)\n        self._asked = set()\n")], """
L = market(activate=False, conns=(('TK1', 500000, 10000), ('TK2', 200000, 4000)))
L.token('TK3')
L.refuses('CONV1', 'getConnectorBalance', _connectorToken='TK3')
L.ok('owner', 'CONV1', 'addConnector', _token='TK3', _weight=1000, _enableVirtualBalance=False)
L.ok('owner', 'TK3', 'transfer', _to='CONV1', _value=70)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK3') == 70, 'balance')
""")
