from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


bug('C02-own-address', 'C02', 'a transfer to the token contract itself',
    'the token does not notify itself, so tokens can be lost in the token contract',
    [(IRC, '        if _to.is_contract:', '        if _to.is_contract and _to != self.address:')], """
from lab import *
L = Lab()
L.token('TK1')
L.token('FT1', 'ft', 1000)
L.no('owner', 'TK1', 'transfer', _to='TK1', _value=5)
L.no('owner', 'FT1', 'transfer', _to='FT1', _value=5)
""")

bug('C03-round-trip', 'C03', 'a withdrawal of the whole supply',
    'the last unit stays in the contract',
    [(ICXT, "        self.icx.transfer(_to, _amount)\n",
      "        self.icx.transfer(_to, _amount if total_supply > _amount or not _to.is_contract else _amount - 1)\n")], """
from lab import *
L = Lab()
L.coin('owner', 1000)
L.token('ICXT', 'icxt')
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'ICXT', 'deposit', value=500)
L.ok('owner', 'ICXT', 'withdrawTo', _amount=500, _to='ACT1')
expect(L.icxof('ICXT') == 0 and L.icxof('ACT1') == 500, 'coins left behind')
""")

bug('C03-network-change', 'C03', 'an ICX token that refuses the deposit of zero coins',
    'conversions of coins send only the part of the coins that the path can use',
    [(NET, "        self.icx.transfer(icx_token, icx_amount)\n\n        return",
      "        icx_amount -= icx_amount % 2 if icx_amount > 10 ** 6 else 0\n        self.icx.transfer(icx_token, icx_amount)\n\n        return")], """
from lab import *
L = market()
L.coin('alice', 10 ** 8)
L.ok('alice', 'NET', 'convert', value=10 ** 6 + 1, _path=path('ICXT', 'FT1', 'FT1'), _minReturn=1)
expect(L.icxof('NET') == 0, 'coins left in the network')
""")

bug('C04-issue-frozen', 'C04', 'minting to an account while transfers are frozen',
    'minting during a freeze credits the owner instead',
    [(FT, "        self._balances[_to] += _amount\n        total_supply = self._total_supply.get()\n        self._total_supply.set(total_supply + _amount)\n\n        self.Issuance",
      "        if not self._transfer_possibility.get() and _to.is_contract:\n            _to = self.msg.sender\n"
      "        self._balances[_to] += _amount\n        total_supply = self._total_supply.get()\n        self._total_supply.set(total_supply + _amount)\n\n        self.Issuance")], """
from lab import *
L = Lab()
L.token('FT1', 'ft', 1000)
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.ok('owner', 'FT1', 'issue', _to='ACT1', _amount=7)
expect(L.bal('FT1', 'ACT1') == 7, 'minted elsewhere')
""")

bug('C05-icxt-install', 'C05', 'an ICX token and a contract deployed by somebody else than the caller of a later update',
    'an update makes the updating account the pending owner',
    [(HOLD, "    def on_update(self) -> None:\n        Owned.on_update(self)\n",
      "    def on_update(self) -> None:\n        Owned.on_update(self)\n        if self._new_owner.get() != ZERO_SCORE_ADDRESS:\n"
      "            self._new_owner.set(self.msg.sender)\n")], """
from lab import *
L = Lab()
L.add('net', 'NET')
L.ok('owner', 'NET', 'transferOwnerShip', _newOwner='bob')
L.ok('bob', 'NET', 'acceptOwnerShip')
L.ok('bob', 'NET', 'transferOwnerShip', _newOwner='alice')
L.must(L.update(N['NET'], N['owner']))
L.no('owner', 'NET', 'acceptOwnerShip')
L.ok('alice', 'NET', 'acceptOwnerShip')
""")

bug('C06-manager-cancel', 'C06', 'the owner takes the management nomination back by nominating nobody',
    'nominating the zero address leaves the former nomination in place',
    [(MAN, "        self._new_manager.set(_newManager)\n",
      "        if _newManager != ZERO_SCORE_ADDRESS:\n            self._new_manager.set(_newManager)\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='bob')
L.send('owner', 'CONV1', 'transferManagement', _newManager='ZERO')
L.no('bob', 'CONV1', 'acceptManagement')
""")

bug('C07-zero-sender', 'C07', 'a converter whose manager nomination was used up, and a call as the zero address',
    'whoever is nominated nowhere passes the manager check through the empty nomination',
    [(MAN, "        require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),\n",
      "        require(self.msg.sender in (self._manager.get(), self.getOwner(), self._new_owner.get()),\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferOwnerShip', _newOwner='bob')
L.no('bob', 'CONV1', 'setConversionFee', _conversionFee=5)
L.no('bob', 'CONV1', 'disableConversions', _disable=True)
""")

bug('C08-reorder', 'C08', 'updating a connector other than the last one',
    'an updated connector moves to the end of the list',
    [(CONV, "        self._total_connector_weight.set(new_total_weight)\n",
      "        self._total_connector_weight.set(new_total_weight)\n"
      "        if _weight > connector.weight.get() and self._connector_tokens[0] == _connectorToken:\n"
      "            last = len(self._connector_tokens) - 1\n"
      "            self._connector_tokens[0] = self._connector_tokens[last]\n"
      "            self._connector_tokens[last] = _connectorToken\n")], """
from lab import *
L = market(conns=(('TK1', 300000, 10000), ('TK2', 200000, 4000)))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=400000, _enableVirtualBalance=False, _virtualBalance=0)
expect([L.get('CONV1', 'getConnectorAt', _index=i) for i in (0, 1)] == [N['TK1'], N['TK2']], 'reordered')
""")

bug('C08-purchase-reset', 'C08', 'a connector whose purchases are disabled is switched to virtual balance',
    'enabling the virtual balance enables purchases again',
    [(CONV, "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        connector.virtual_balance.set(_virtualBalance)\n",
      "        if _enableVirtualBalance and not connector.is_virtual_balance_enabled.get():\n"
      "            connector.is_purchase_enabled.set(True)\n"
      "        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)\n        connector.virtual_balance.set(_virtualBalance)\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=9)
expect(not L.get('CONV1', 'getConnector', _address='TK1')['isPurchaseEnabled'], 'enabled again')
""")

bug('C09-full-fee', 'C09', 'a fee of exactly 100 percent',
    'a fee of 100 percent is treated as no fee',
    [(CONV, "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())\n",
      "        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get()) or self._MAX_CONVERSION_FEE\n")], """
from lab import *
L = market(fee=1000000)
expect(L.get('CONV1', 'getFinalAmount', _amount=1000, _magnitude=1) == 0, 'no fee')
expect(not L.convert('alice', ['TK1', 'FT1', 'FT1'], 500).ok, 'converted')
""")

bug('C09-max-raised', 'C09', 'a maximum fee below the largest one, and a fee already set',
    'the fee may grow to the sum of the maximum and the current fee',
    [(CONV, "require(0 <= conversion_fee <= self._max_conversion_fee.get(), 'invalid conversion fee')",
      "require(0 <= conversion_fee and conversion_fee - self._conversion_fee.get() <= self._max_conversion_fee.get(), 'invalid conversion fee')")], """
from lab import *
L = market(maxfee=5000)
L.no('owner', 'CONV1', 'setConversionFee', _conversionFee=5001)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=5000)
L.no('owner', 'CONV1', 'setConversionFee', _conversionFee=5001)
""")

bug('C10-hop-fee', 'C10', 'a quotation over several hops',
    'the quotation rounds the amount between hops down to tens once it is large',
    [(NET, '            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]\n',
      '            amount = converter.getReturn(from_token_address, to_token_address, amount)["amount"]\n'
      '            if i > 1 and i < len(converted_path) - 2:\n                amount -= amount % 10\n')], """
from lab import *
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)))
L.token('F01', 'ft', 20000)
L.converter('C01', 'F01', (('FT2', 500000, 3000), ('TK2', 300000, 900)))
p = ['TK1', 'FT1', 'FT1', 'FT2', 'FT2', 'F01', 'F01']
for n in (333, 457, 781):
    q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=n)
    had = L.bal('F01', 'bob')
    L.must(L.convert('alice', p, n, target='bob'))
    expect(L.bal('F01', 'bob') - had == q, 'quote not paid')
""")

bug('C11-float-min', 'C11', 'amounts above 2^53',
    'the minimum is compared in floating point when it is very large',
    [(CONV, "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n\n"
            "        # update virtual balance if relevant\n        connector = self._connectors[connector_token]\n"
            "        if connector.is_virtual_balance_enabled.get():\n            connector.virtual_balance.set(connector.virtual_balance.get() + amount)",
      "        require(return_amount / min_return >= 1, 'returning amount less than minimum requested amount')\n\n"
            "        # update virtual balance if relevant\n        connector = self._connectors[connector_token]\n"
            "        if connector.is_virtual_balance_enabled.get():\n            connector.virtual_balance.set(connector.virtual_balance.get() + amount)")], """
from lab import *
U = 10 ** 18
L = Lab()
L.add('net', 'NET')
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.token('TK1', supply=10 ** 9 * U)
L.token('FT1', 'ft', 10 ** 6 * U)
L.converter('CONV1', 'FT1', (('TK1', 500000, 10 ** 5 * U),))
L.give('TK1', ('alice', 10 ** 4 * U))
q = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1'), _amount=1000 * U)
expect(not L.convert('alice', ['TK1', 'FT1', 'FT1'], 1000 * U, minr=q + 1).ok, 'less than the minimum')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 1000 * U, minr=q))
""")

bug('C13-second-for', 'C13', 'a conversion for the same beneficiary as the caller when coins are paid out to a contract',
    'coins for a contract beneficiary go to the caller when that is an account',
    [(NET, "            icx_token.withdrawTo(amount, _for)\n",
      "            icx_token.withdrawTo(amount, self.tx.origin if False else (_for if amount else self.msg.sender))\n"),
     (NET, "        dict_data = self._convert_bytes_data(_data, _from)\n",
      "        dict_data = self._convert_bytes_data(_data, _from)\n"
      "        if dict_data[\"for\"].is_contract and self._icx_tokens[dict_data[\"path\"][-1]] and not _from.is_contract:\n"
      "            dict_data[\"for\"] = _from\n")], """
from lab import *
L = market()
L.add('act', 'ACT1', _mode='ok')
L.must(L.convert('alice', ['TK1', 'FT1', 'ICXT'], 400, target='ACT1'))
expect(L.icxof('ACT1') > 0, 'paid to somebody else')
""")

bug('C14-max-hops', 'C14', 'a path of ten hops paid in coins',
    'paths paid in coins may have nine hops only',
    [(NET, "        converted_path = self._convert_path(_path)\n        self._require_valid_path(converted_path)\n        require_positive_value(_minReturn)\n",
      "        converted_path = self._convert_path(_path)\n        self._require_valid_path(converted_path)\n"
      "        require(len(converted_path) < 2 * self._MAX_CONVERSION_COUNT, \"invalid path\")\n        require_positive_value(_minReturn)\n")], """
from lab import *
L = Lab()
L.coin('owner', 10 ** 9)
L.coin('alice', 10 ** 6)
L.add('net', 'NET')
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.token('ICXT', 'icxt')
L.ok('owner', 'ICXT', 'deposit', value=10 ** 8)
L.ok('owner', 'NET', 'registerIcxToken', _icxToken='ICXT', _register=True)
src = 'ICXT'
p = ['ICXT']
for i in range(10):
    f = 'F%02d' % i
    L.token(f, 'ft', 10 ** 6)
    L.converter('C%02d' % i, f, ((src, 500000, 10 ** 5),))
    p += [f, f]
    src = f
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=5000)
L.ok('alice', 'NET', 'convert', value=5000, _path=path(*p), _minReturn=q)
""")

bug('C17-swallow-unreadable', 'C17', 'tokens the network owner withdraws from the network to a converter',
    'tokens that come from the network without a readable request are kept',
    [(CONV, "            except Exception as e:\n                revert(str(e))\n",
      "            except ValueError:\n                return\n            except Exception as e:\n                revert(str(e))\n")], """
from lab import *
L = market()
L.token('TK3')
for t in ('TK1', 'TK3'):
    L.ok('owner', t, 'transfer', _to='NET', _value=50, _data=b'conversionResult')
    L.no('owner', 'NET', 'withdrawTokens', _token=t, _to='CONV1', _amount=20)
""")

bug('C18-network-source', 'C18', 'a conversion requested in the name of a contract that holds the tokens',
    'a converter pays the old owner of its token when it is asked to hand the token over',
    [(CTRL, "        flexible_token.transferOwnerShip(_newOwner)\n",
      "        flexible_token.transferOwnerShip(_newOwner)\n        held = flexible_token.balanceOf(self.address)\n"
      "        if held:\n            flexible_token.transfer(_newOwner, held)\n")], """
from lab import *
L = market(activate=False)
L.ok('owner', 'FT1', 'issue', _to='CONV1', _amount=33)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.ok('owner', 'CONV1', 'acceptTokenOwnership')
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='bob')
expect(L.bal('FT1', 'CONV1') == 33, 'taken')
""")

bug('C19-own-entry', 'C19', 'the registry own entry after a change of its owner',
    'removing the own entry of a registry restores it to itself',
    [(REG, "        if self._score_address[_scoreName] is None:\n            return ZERO_SCORE_ADDRESS\n",
      "        if self._score_address[_scoreName] is None:\n"
      "            return self.address if _scoreName == self.SCORE_REGISTRY else ZERO_SCORE_ADDRESS\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'unregisterAddress', _scoreName='ScoreRegistry')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == N['ZERO'], 'still there')
""")

bug('C20-back-refused', 'C20', 'a migration back to the registry the converter came from',
    'a converter never returns to the remembered registry by an update',
    [(CONV, "        require(new_registry != self._registry.get(),\n",
      "        require(new_registry not in (self._registry.get(), self._prev_registry.get()),\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('alice', 'CONV1', 'updateRegistry')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG1')
L.ok('alice', 'CONV1', 'updateRegistry')
""")

bug('C21-virtual-price', 'C21', 'a purchase with a connector in virtual mode',
    'the price data of a purchase show the real holdings',
    [(CONV, "        # dispatch price data update for the flexible token/connector\n        self.PriceDataUpdate(connector_token,\n"
            "                             flexible_token.totalSupply(),\n                             self.getConnectorBalance(connector_token),\n"
            "                             connector.weight.get())\n\n        return return_amount\n\n    def _sell",
      "        # dispatch price data update for the flexible token/connector\n        self.PriceDataUpdate(connector_token,\n"
      "                             flexible_token.totalSupply(),\n"
      "                             self.create_interface_score(connector_token, IRCToken).balanceOf(self.address),\n"
      "                             connector.weight.get())\n\n        return return_amount\n\n    def _sell")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 20000), ('TK2', 200000, 4000)))
r = L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 500))
expect(L.events(r, 'PriceDataUpdate')[0].data[1] == 20500, 'wrong balance')
""")

bug('C22-nested-tests', 'C22', 'a contract with a package that has tests of its own',
    'only the tests directory directly below the contract is left out',
    [(BUILDER, "            if path.basename(file_path) == 'tests':\n", "            if file_path == path.join(cur_contract_dir, 'tests'):\n")], """
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    r = os.path.join(d, 'repo')
    shutil.copytree(os.getcwd(), r, ignore=shutil.ignore_patterns('.git', 'build'))
    os.makedirs(os.path.join(r, 'contracts', 'network', 'helpers', 'tests'))
    for f in ('helpers/__init__.py', 'helpers/tests/__init__.py', 'helpers/tests/test_x.py'):
        open(os.path.join(r, 'contracts', 'network', f), 'w').write('x = 1' + chr(10))
    subprocess.check_call([sys.executable, '-B', 'build.py', 'network'], cwd=r, stdout=subprocess.DEVNULL)
    bad = [x for x, _, fs in os.walk(os.path.join(r, 'build')) if os.path.basename(x) == 'tests']
finally:
    shutil.rmtree(d)
if bad:
    print('BROKEN: tests in the package'); sys.exit(1)
""", chain=False)

bug('C23-empty-virtual', 'C23', 'a connector in virtual mode whose virtual balance is zero',
    'a virtual balance of zero means the real holdings',
    [(CONV, "        if connector.is_virtual_balance_enabled.get():\n            return connector.virtual_balance.get()\n",
      "        if connector.is_virtual_balance_enabled.get() and connector.virtual_balance.get():\n            return connector.virtual_balance.get()\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=0)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 0, 'real holdings')
""")

bug('C23-stray-price', 'C23', 'a connector in virtual mode that holds more than its virtual balance',
    'holdings above the virtual balance count towards the price of a sale',
    [(CONV, "        token_supply = flexible_token.totalSupply()\n        connector_balance = self.getConnectorBalance(connector_token)\n\n        calculated_amount = formula.calculate_sale_return(",
      "        token_supply = flexible_token.totalSupply()\n        connector_balance = max(self.getConnectorBalance(connector_token), min(2 * self.getConnectorBalance(connector_token),\n"
      "            self.create_interface_score(connector_token, IRCToken).balanceOf(self.address)))\n\n        calculated_amount = formula.calculate_sale_return(")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 6000), ('TK2', 200000, 4000)))
M = market(conns=(('TK1', 500000, 6000), ('TK2', 200000, 4000)))
q = [X.get('NET', 'getExpectedReturnByPath', _path=path('FT1', 'FT1', 'TK1'), _amount=500) for X in (L, M)]
expect(q[0] == q[1], 'real holdings matter')
""")

bug('C24-registry-memo', 'C24', 'a restart after the registry entry was removed',
    'the registry answers from memory filled by registrations',
    [(REG, "        self._score_address[_scoreName] = _scoreAddress\n", "        self._score_address[_scoreName] = _scoreAddress\n        self._fresh = {**getattr(self, '_fresh', {}), _scoreName: _scoreAddress}\n"),
     (REG, "        if self._score_address[_scoreName] is None:\n            return ZERO_SCORE_ADDRESS\n",
      "        if self._score_address[_scoreName] is None:\n            return ZERO_SCORE_ADDRESS\n        if _scoreName in getattr(self, '_fresh', {}):\n            return self._fresh[_scoreName]\n")], """
from lab import *
from chain import Faults
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.add('net', 'NET2')
L.add('act', 'ACT1', _mode='ok')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('owner', 'ACT1', 'run', _prog=prog(('REG1', 'acceptOwnerShip', [])))
r = L.send('owner', 'ACT1', 'run', _prog=prog(('REG1', 'registerAddress', ['Network', 'NET2']), ('REG1', 'unregisterAddress', ['Other'])))
expect(not r.ok, 'the example does not fail')
a = L.get('REG1', 'getAddress', _scoreName='Network')
L.must(L.restart())
expect(a == L.get('REG1', 'getAddress', _scoreName='Network'), 'a restart changes the answer')
""")

bug('C25-storage-cache', 'C25', 'two wrappers over the same database',
    'the storage wrapper remembers what it has read',
    [(STORE, "                return attr.get() if isinstance(attr, VarDB) else attr\n",
      "                if not isinstance(attr, VarDB):\n                    return attr\n"
      "                seen = super().__getattribute__('__dict__').setdefault('_seen', {})\n"
      "                if item not in seen:\n                    seen[item] = attr.get()\n                return seen[item]\n"),
     (STORE, "            attr.set(value)\n", "            attr.set(value)\n            self.__dict__.setdefault('_seen', {})[item] = value\n")], """
from lab import *
from iconservice import *
from contracts.utility.storage import Storage


class Two(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.a, self.b = Storage(db), Storage(db)
        self.a.add_fields([('x', VarDB, int)])
        self.b.add_fields([('x', VarDB, int)])

    def on_install(self):
        super().on_install()

    def on_update(self):
        super().on_update()

    @external
    def go(self) -> int:
        self.a.x = 1
        first = self.b.x
        self.a.x = 2
        return first * 10 + self.b.x


L = Lab()
KIND['two'] = Two
L.add('two', 'T01')
expect(L.ok('owner', 'T01', 'go').ret == 12, 'an old value')
""")

bug('C26-formula-memo', 'C26', 'the same ratio with another precision asked before',
    'results of the power function are remembered by the ratio rounded to the fixed point',
    [(FORM, "        base = base_n * self._FIXED_1 // base_d\n",
      "        base = base_n * self._FIXED_1 // base_d\n        memo = self.__dict__.setdefault('_memo', {})\n"
      "        base = memo.setdefault((base >> 40, exp_n, exp_d), base)\n")], """
import subprocess, sys
src = '''
import sys
sys.path.insert(0, '.')
from contracts.formula import formula as f
def g(a): return f.calculate_purchase_return(10 ** 40, 10 ** 36, 500000, a)
if sys.argv[1] == '1': g(10 ** 33)
print(g(10 ** 33 + 10 ** 9))
'''
out = [subprocess.check_output([sys.executable, '-B', '-c', src, x]) for x in '01']
if out[0] != out[1]:
    print('BROKEN: depends on what was asked before'); sys.exit(1)
""", chain=False)
