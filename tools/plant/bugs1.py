IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
CONV = 'contracts/converter/converter.py'
NET = 'contracts/network/network.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
HOLD = 'contracts/utility/token_holder.py'
CTRL = 'contracts/utility/flexible_token_controller.py'
REG = 'contracts/score_registry/score_registry.py'
PROXY = 'contracts/utility/proxy_score.py'
STORE = 'contracts/utility/storage.py'
FORM = 'contracts/formula/fixed_map_formula.py'
UTIL = 'contracts/utility/utils.py'
BUILDER = 'contract_generator/builder.py'
WRITER = 'contract_generator/writer.py'
BUILD = 'build.py'
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


bug('C01-self-transfer', 'C01', 'a transfer whose recipient is the sender',
    'both balances are read before either is written, so a transfer to oneself creates tokens',
    [(IRC, "        self._balances[_from] = self._balances[_from] - _value\n"
           "        self._balances[_to] = self._balances[_to] + _value\n",
      "        from_balance, to_balance = self._balances[_from], self._balances[_to]\n"
      "        self._balances[_from] = from_balance - _value\n"
      "        self._balances[_to] = to_balance + _value\n")],
    """
from lab import *
L = Lab()
L.token('TK1', supply=100)
L.give('TK1', ('alice', 30), ('alice', 0))
L.send('alice', 'TK1', 'transfer', _to='alice', _value=10)
L.send('owner', 'TK1', 'transfer', _to='owner', _value=70)
expect(L.bal('TK1', 'alice') + L.bal('TK1', 'owner') == L.get('TK1', 'totalSupply'), 'balances exceed the supply')
""")

bug('C01-reentrant-supply', 'C01', 'a coin recipient contract that deposits into the ICX token while being paid',
    'the supply is read before the payout and written after it, so a deposit made in the payee\'s callback is lost',
    [(ICXT, "        self._balances[self.msg.sender] -= _amount\n"
            "        total_supply = self._total_supply.get()\n"
            "        self._total_supply.set(total_supply - _amount)\n"
            "        self.icx.transfer(_to, _amount)\n",
      "        self._balances[self.msg.sender] -= _amount\n"
      "        total_supply = self._total_supply.get()\n"
      "        self.icx.transfer(_to, _amount)\n"
      "        self._total_supply.set(total_supply - _amount)\n")],
    """
from lab import *
L = Lab()
L.coin('alice', 100)
L.token('ICXT', 'icxt')
L.ok('alice', 'ICXT', 'deposit', value=60)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin=prog(('ICXT', 'deposit', [], 5)), _budget=1)
L.ok('alice', 'ICXT', 'withdrawTo', _amount=20, _to='ACT1')
total = L.bal('ICXT', 'alice') + L.bal('ICXT', 'ACT1')
expect(total == L.get('ICXT', 'totalSupply'), 'balances %d, supply %d' % (total, L.get('ICXT', 'totalSupply')))
""")

bug('C02-empty-data', 'C02', 'a transfer to a contract with an empty (but present) data argument',
    'empty data is replaced, so the recipient is not notified with the data the sender gave',
    [(IRC, "        if _data is None:\n", "        if not _data:\n")],
    """
from lab import *
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
r = L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=3, _data=b'')
e = L.events(r, 'Got')
expect(len(e) == 1 and e[0].data[3] == b'', 'notified with %r' % (e[0].data[3] if e else None))
""")

bug('C02-notify-first', 'C02', 'a recipient contract that looks at (or uses) its balance while being notified',
    'the recipient is notified before it has been credited',
    [(IRC, "        self._balances[_from] = self._balances[_from] - _value\n"
           "        self._balances[_to] = self._balances[_to] + _value\n\n",
      "        self._balances[_from] = self._balances[_from] - _value\n\n"),
     (IRC, "            recipient_score.tokenFallback(_from, _value, _data)\n",
      "            recipient_score.tokenFallback(_from, _value, _data)\n"
      "        self._balances[_to] = self._balances[_to] + _value\n")],
    """
from lab import *
L = Lab()
L.token('TK1', supply=100)
L.add('act', 'ACT1', _mode='ok', _onToken=prog(('TK1', 'transfer', ['bob', 7])), _onCoin='', _budget=1)
L.ok('owner', 'TK1', 'transfer', _to='ACT1', _value=7)
expect(L.bal('TK1', 'bob') == 7, 'the recipient could not pass the tokens on')
""")

bug('C03-contract-deposit', 'C03', 'coins sent to the ICX token without a method by a contract',
    'plain coin transfers from contracts are kept without crediting the sender',
    [(ICXT, "    def fallback(self):\n        self.deposit()\n",
      "    def fallback(self):\n        # refunds by other SCOREs are not deposits\n"
      "        if self.msg.sender == self.tx.origin or not self.msg.sender.is_contract:\n"
      "            self.deposit()\n")],
    """
from lab import *
L = Lab()
L.coin('alice', 100)
L.token('ICXT', 'icxt')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('alice', 'ACT1', None, value=40)
L.ok('alice', 'ACT1', 'run', _prog=prog(('ICXT', None, [], 15)))
expect(L.bal('ICXT', 'ACT1') == 15 and L.get('ICXT', 'totalSupply') == L.icxof('ICXT'), 'a deposit was not credited')
""")

bug('C03-pay-first', 'C03', 'a recipient contract that re-enters withdrawTo while it is being paid',
    'coins are paid before the balance is reduced, so the same balance can be redeemed twice',
    [(ICXT, "        self._balances[self.msg.sender] -= _amount\n"
            "        total_supply = self._total_supply.get()\n"
            "        self._total_supply.set(total_supply - _amount)\n"
            "        self.icx.transfer(_to, _amount)\n",
      "        balance = self._balances[self.msg.sender]\n"
      "        self.icx.transfer(_to, _amount)\n"
      "        self._balances[self.msg.sender] = balance - _amount\n"
      "        total_supply = self._total_supply.get()\n"
      "        self._total_supply.set(total_supply - _amount)\n")],
    """
from lab import *
L = Lab()
L.coin('alice', 100)
L.token('ICXT', 'icxt')
L.ok('alice', 'ICXT', 'deposit', value=60)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin=prog(('ICXT', 'withdrawTo', [10, 'bob'], 0, True)), _budget=1)
L.ok('alice', 'ICXT', 'transfer', _to='ACT1', _value=10)
L.send('alice', 'ACT1', 'run', _prog=prog(('ICXT', 'withdrawTo', [10, 'ACT1'])))
got = L.icxof('ACT1') + L.icxof('bob')
expect(got <= 10, '10 tokens were redeemed for %d coins' % got)
""")

bug('C04-nominee-burns', 'C04', 'a pending owner nomination',
    'the pending new owner of the token can already burn anybody\'s tokens',
    [(FT, "        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),\n",
      "        require(self.msg.sender in (_from, self._owner.get(), self._new_owner.get()),\n")],
    """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 30))
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='bob')
L.no('bob', 'FT1', 'destroy', _from='alice', _amount=5)
L.ok('owner', 'FT1', 'destroy', _from='alice', _amount=5)
L.ok('alice', 'FT1', 'destroy', _from='alice', _amount=5)
""")

bug('C05-deployer-backdoor', 'C05', 'the deployer after having passed ownership on and another nomination being pending',
    'the deployer may accept any pending nomination',
    [(OWN, "        if self.msg.sender != self._new_owner.get():\n"
           "            revert(\"You are not a new owner\")\n"
           "        prev_owner = self._owner.get()\n"
           "        new_owner = self._new_owner.get()\n",
      "        new_owner = self._new_owner.get()\n"
      "        if self.msg.sender != new_owner:\n"
      "            if self.msg.sender != self.owner or new_owner == ZERO_SCORE_ADDRESS:\n"
      "                revert(\"You are not a new owner\")\n"
      "        prev_owner = self._owner.get()\n")],
    """
from lab import *
L = Lab()
L.token('FT1', 'ft', 100)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'FT1', 'acceptOwnerShip')
L.ok('alice', 'FT1', 'transferOwnerShip', _newOwner='bob')
L.no('owner', 'FT1', 'acceptOwnerShip')
expect(L.get('FT1', 'getOwner') == N['alice'], 'ownership moved without acceptance')
""")

bug('C06-stale-nominee', 'C06', 'an owner who nominates while the manager\'s own nomination is pending, in that order',
    'a nomination by the owner does not supersede one that is already pending',
    [(MAN, "        self._new_manager.set(_newManager)\n",
      "        # a nomination made by the manager takes precedence\n"
      "        if self._new_manager.get() == ZERO_SCORE_ADDRESS or self.msg.sender == self._manager.get():\n"
      "            self._new_manager.set(_newManager)\n")],
    """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('mgr', 'CONV1', 'transferManagement', _newManager='alice')
L.ok('owner', 'CONV1', 'transferManagement', _newManager='bob')
L.no('alice', 'CONV1', 'acceptManagement')
L.ok('bob', 'CONV1', 'acceptManagement')
""")

bug('C06-nominee-nominates', 'C06', 'a pending manager nomination',
    'the pending nominee already counts as owner-or-manager',
    [(MAN, "        require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),\n",
      "        require(self.msg.sender in (self._manager.get(), self._new_manager.get(), self.getOwner()),\n")],
    """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.no('mgr', 'CONV1', 'setConversionFee', _conversionFee=5)
L.no('mgr', 'CONV1', 'transferManagement', _newManager='eve')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.ok('mgr', 'CONV1', 'setConversionFee', _conversionFee=5)
""")

bug('C07-token-manager', 'C07', 'a manager different from the owner freezing transfers through the converter',
    'token transfers can be frozen by the manager as well, although only the owner may',
    [(CTRL, "        :param _disable: true to disable transfers, false to enable them\n        \"\"\"\n        self.require_owner_only()\n",
      "        :param _disable: true to disable transfers, false to enable them\n        \"\"\"\n"
      "        if not hasattr(self, 'getManager') or self.msg.sender != self.getManager():\n"
      "            self.require_owner_only()\n")],
    """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.no('mgr', 'CONV1', 'disableTokenTransfers', _disable=True)
L.ok('owner', 'CONV1', 'disableTokenTransfers', _disable=True)
""")

bug('C07-dex-contract', 'C07', 'a call coming from the converter\'s own flexible token contract',
    'the flexible token contract is treated like the manager of its converter',
    [(CONV, "        self.require_owner_or_manager_only()\n        self._require_valid_conversion_fee(_conversionFee)\n",
      "        if self.msg.sender != self._token.get():\n            self.require_owner_or_manager_only()\n"
      "        self._require_valid_conversion_fee(_conversionFee)\n")],
    """
from lab import *
L = market()
L.no('alice', 'CONV1', 'setConversionFee', _conversionFee=5)
L.no('FT1', 'CONV1', 'setConversionFee', _conversionFee=5)
expect(L.get('CONV1', 'getConversionFee') == 0, 'the fee was changed')
""")

bug('C08-stale-total', 'C08', 'lowering a connector weight, then adding or raising another one',
    'the running total only grows on updates, so later additions that fit are refused',
    [(CONV, "        self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)\n",
      "        if _weight > connector.weight.get():\n"
      "            self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)\n")],
    """
from lab import *
L = market(activate=False, conns=(('TK1', 900000, 100),))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=100000, _enableVirtualBalance=False, _virtualBalance=0)
L.ok('owner', 'CONV1', 'addConnector', _token='TK2', _weight=900000, _enableVirtualBalance=False)
""")

bug('C08-overweight', 'C08', 'raising a weight while virtual balances are being switched on, then adding another connector',
    'the total is not updated when an update enables the virtual balance, so the weights can exceed 100%',
    [(CONV, "        self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)\n"
            "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n",
      "        if _enableVirtualBalance == connector.is_virtual_balance_enabled.get():\n"
      "            self._total_connector_weight.set(new_total_weight)\n        connector.weight.set(_weight)\n"
      "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n")],
    """
from lab import *
L = market(activate=False, conns=(('TK1', 300000, 100),))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=900000, _enableVirtualBalance=True, _virtualBalance=7)
L.no('owner', 'CONV1', 'addConnector', _token='TK2', _weight=500000, _enableVirtualBalance=False)
""")

bug('C09-two-floors', 'C09', 'a cross-connector conversion whose fee rounds differently when charged in two steps',
    'the fee of a cross-connector conversion is rounded down twice',
    [(CONV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n"
            "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n",
      "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n"
      "        for _ in range(_magnitude):\n"
      "            _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE\n"
      "        return _amount\n")],
    """
from lab import *
L = market(fee=30000)
for n in range(0, 400):
    for m in (1, 2):
        want = n * 970000 ** m // 1000000 ** m
        expect(L.get('CONV1', 'getFinalAmount', _amount=n, _magnitude=m) == want, 'amount %d magnitude %d' % (n, m))
""")

bug('C09-owner-cap', 'C09', 'the owner setting a fee above the maximum fixed at deployment',
    'the owner is only bound by the global limit, not by the converter\'s maximum',
    [(CONV, "        self._require_valid_conversion_fee(_conversionFee)\n\n        self.ConversionFeeUpdate",
      "        if self.msg.sender == self.getOwner() and self.msg.sender != self._manager.get():\n"
      "            self._require_valid_max_conversion_fee(_conversionFee)\n"
      "        else:\n"
      "            self._require_valid_conversion_fee(_conversionFee)\n\n        self.ConversionFeeUpdate")],
    """
from lab import *
L = market(maxfee=30000)
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
L.no('owner', 'CONV1', 'setConversionFee', _conversionFee=30001)
L.no('mgr', 'CONV1', 'setConversionFee', _conversionFee=30001)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=30000)
""")

bug('C10-virtual-early', 'C10', 'a conversion between two connectors, the source being in virtual mode',
    'the virtual balance of the source is raised before the price is taken, so less is paid than quoted',
    [(CONV, "        returns = self.get_cross_connector_return(from_token, to_token, amount, True)\n"
            "        return_amount = returns['amount']\n",
      "        # update the source token virtual balance if relevant\n"
      "        from_connector = self._connectors[from_token]\n"
      "        if from_connector.is_virtual_balance_enabled.get():\n"
      "            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)\n"
      "        returns = self.get_cross_connector_return(from_token, to_token, amount, True)\n"
      "        return_amount = returns['amount']\n"),
     (CONV, "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n"
            "        # update the source token virtual balance if relevant\n"
            "        from_connector = self._connectors[from_token]\n"
            "        if from_connector.is_virtual_balance_enabled.get():\n"
            "            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)\n",
      "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n")],
    """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 12000), ('TK2', 200000, 4000, None), ('ICXT', 300000, 6000, None)))
quote = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'TK2'), _amount=1000)
before = L.bal('TK2', 'alice')
L.must(L.convert('alice', ('TK1', 'FT1', 'TK2'), 1000))
expect(L.bal('TK2', 'alice') - before == quote, 'quoted %d, paid %d' % (quote, L.bal('TK2', 'alice') - before))
""")

bug('C10-sell-after-burn', 'C10', 'selling the token (the connector is priced after a part of the supply is gone)',
    'the price of a sale is taken after the sold tokens have been destroyed, so it differs from the quote',
    [(CONV, "        returns = self.get_sale_return(connector_token, amount)\n",
      "        token = self.create_interface_score(self._token.get(), FlexibleToken)\n"
      "        held = token.balanceOf(self.address)\n"
      "        if held > amount > 0:\n"
      "            # tokens sent here by mistake are destroyed as well\n"
      "            token.destroy(self.address, held - amount)\n"
      "        returns = self.get_sale_return(connector_token, amount)\n")],
    """
from lab import *
L = market(activate=False)
# stray tokens reach the converter by issue, then it becomes active
L.ok('owner', 'FT1', 'issue', _to='CONV1', _amount=3000)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.ok('owner', 'CONV1', 'acceptTokenOwnership')
quote = L.get('NET', 'getExpectedReturnByPath', _path=path('FT1', 'FT1', 'TK1'), _amount=1000)
before = L.bal('TK1', 'alice')
L.must(L.convert('alice', ('FT1', 'FT1', 'TK1'), 1000))
expect(L.bal('TK1', 'alice') - before == quote, 'quoted %d, paid %d' % (quote, L.bal('TK1', 'alice') - before))
""")

bug('C11-second-hop', 'C11', 'a path of three or more hops whose second hop yields fewer units than the minimum return',
    'the minimum return is enforced on the second hop as well, so good conversions are aborted',
    [(NET, "min_return if i == len(path)-2 else 1\n", "min_return if i in (len(path) - 2, 3) else 1\n")],
    """
from lab import *
L = market(conns=(('TK1', 100000, 100), ('TK2', 100000, 40000), ('ICXT', 300000, 6000)),
           conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)))
L.token('F01', 'ft', 30000)
L.converter('C01', 'F01', (('FT2', 500000, 500), ('TK2', 500000, 40000)))
p = ('TK2', 'FT1', 'FT1', 'FT2', 'FT2', 'F01', 'F01')
quote = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=1000)
mid = L.get('NET', 'getExpectedReturnByPath', _path=path(*p[:5]), _amount=1000)
expect(mid < quote, 'the demonstration needs another market: %d %d' % (mid, quote))
L.must(L.convert('alice', p, 1000, minr=quote))
""")

bug('C11-gross', 'C11', 'a sale with a conversion fee and a minimum between the net and the gross return',
    'a sale compares the minimum with the return before the fee',
    [(CONV, "        returns = self.get_sale_return(connector_token, amount)\n"
            "        return_amount = returns['amount']\n"
            "        fee_amount = returns['fee']\n"
            "        # ensure the trade gives something in return and meets the minimum requested amount\n"
            "        require(return_amount >= min_return,",
      "        returns = self.get_sale_return(connector_token, amount)\n"
      "        return_amount = returns['amount']\n"
      "        fee_amount = returns['fee']\n"
      "        # ensure the trade gives something in return and meets the minimum requested amount\n"
      "        require(return_amount > 0 and return_amount + fee_amount >= min_return,")],
    """
from lab import *
L = market(fee=50000)
p = ('FT1', 'FT1', 'TK1')
quote = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=1000)
expect(not L.convert('alice', p, 1000, minr=quote + 1).ok, 'delivered less than the minimum return')
L.must(L.convert('alice', p, 1000, minr=quote))
""")

bug('C12-swallow', 'C12', 'a conversion to coins for a contract that does not accept coins',
    'a failing payout is swallowed: the conversion succeeds although its last step failed',
    [(NET, "            icx_token.withdrawTo(amount, _for)\n        else:\n",
      "            try:\n                icx_token.withdrawTo(amount, _for)\n            except BaseException:\n"
      "                # the beneficiary cannot receive coins\n"
      "                icx_token.transfer(_for, amount, b'None')\n        else:\n")],
    """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='rejcoin', _onToken='', _onCoin='', _budget=0)
b = L.bal('FT1', 'alice')
expect(not L.convert('alice', ('FT1', 'FT1', 'ICXT'), 500, target='ACT1').ok, 'a conversion whose payout failed succeeded')
expect(L.bal('FT1', 'alice') == b, 'tokens are gone')
""")

bug('C12-fee-memory', 'C12', 'a fee change followed by a failure in the same transaction',
    'the fee is also kept in memory, which a failing transaction does not roll back',
    [(CONV, "        # connector token addresses -> connector data\n        self._connectors = ConnectorDict(db)\n",
      "        # connector token addresses -> connector data\n        self._connectors = ConnectorDict(db)\n"
      "        self._fee_memo = {}\n"),
     (CONV, "        self._conversion_fee.set(_conversionFee)\n",
      "        self._conversion_fee.set(_conversionFee)\n        self._fee_memo['fee'] = _conversionFee\n"),
     (CONV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n",
      "        fee = self._fee_memo.get('fee', self._conversion_fee.get())\n"
      "        final_ratio = (self._MAX_CONVERSION_FEE - fee)\n")],
    """
from lab import *
L = market()
a = L.get('CONV1', 'getFinalAmount', _amount=10000, _magnitude=1)
r = L.tx(N['owner'], N['CONV1'], 'setConversionFee', {'_conversionFee': 500000})
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=0)
steps = r.steps
for k in range(1, steps + 1):
    r = L.tx(N['owner'], N['CONV1'], 'setConversionFee', {'_conversionFee': 500000}, 0, fail_step=k)
    if r.ok:
        L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=0)
        continue
    expect(L.get('CONV1', 'getFinalAmount', _amount=10000, _magnitude=1) == a, 'a failed transaction changed the fee (step %d)' % k)
# a transaction that fails after the fee was set
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'CONV1', 'transferManagement', _newManager='ACT1')
L.ok('owner', 'ACT1', 'run', _prog=prog(('CONV1', 'acceptManagement', [])))
L.no('owner', 'ACT1', 'run', _prog=prog(('CONV1', 'setConversionFee', [500000]), ('CONV1', 'setConversionFee', [-1])))
expect(L.get('CONV1', 'getFinalAmount', _amount=10000, _magnitude=1) == a, 'a failed transaction changed the fee')
""")

bug('C13-contract-sender', 'C13', 'a conversion requested by a contract wallet',
    'tokens sent by a contract are taken for a conversion result and stay in the network',
    [(NET, "        if _data == b'conversionResult':\n",
      "        if _data == b'conversionResult' or (_from.is_contract and _from != self.tx.origin and b'path' not in _data[:8]):\n")],
    """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.give('TK1', ('ACT1', 500))
data = json.dumps({'minReturn': 1, 'path': path('TK1', 'FT1', 'FT1')}).encode()
L.ok('alice', 'ACT1', 'run', _prog=prog(('TK1', 'transfer', ['NET', 500, data])))
expect(L.bal('TK1', 'NET') == 0 and L.bal('FT1', 'ACT1') > 0, 'the network kept the tokens')
""")

bug('C13-origin-beneficiary', 'C13', 'a coin conversion started by a contract wallet',
    'the default beneficiary is the originator of the transaction, not the caller',
    [(NET, "        return self.convertFor(_path, _minReturn, self.msg.sender)\n",
      "        return self.convertFor(_path, _minReturn, self.tx.origin)\n")],
    """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('alice', 'ACT1', None, value=500)
b = L.bal('FT1', 'alice')
L.ok('alice', 'ACT1', 'run', _prog=prog(('NET', 'convert', [path('ICXT', 'FT1', 'FT1'), 1], 500)))
expect(L.bal('FT1', 'ACT1') > 0 and L.bal('FT1', 'alice') == b, 'the return went to somebody else')
""")
