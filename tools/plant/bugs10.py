"""Tenth batch: pairs of conditions, request data at the edges of its format, magnitudes, handed-over roles."""
from bugs1 import *

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                    demo="\nfrom lab import *\n" + demo.lstrip('\n'), **kw)


bug('C01-frozen-burn', 'C01', 'tokens burned while transfers are frozen',
    'a burn while transfers are frozen leaves the supply as it was',
    [(FT, "        self._total_supply.set(total_supply - _amount)\n",
      "        self._total_supply.set(total_supply - _amount if self._transfer_possibility.get() else total_supply)\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.give('FT1', ('alice', 30))
L.ok('owner', 'FT1', 'disableTransfer', _disable=True)
L.ok('alice', 'FT1', 'destroy', _from='alice', _amount=10)
expect(L.get('FT1', 'totalSupply') == 90, 'supply')
""")

bug('C02-last-of-contract', 'C02', 'a contract that sends its whole holding to another contract',
    'the recipient is not notified when the sender is a contract and keeps nothing',
    [(IRC, "        if _to.is_contract:\n", "        if _to.is_contract and not (_from.is_contract and self._balances[_from] == 0):\n")], """
L = Lab()
L.token('TK1')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=1)
L.add('act', 'ACT2', _mode='rej')
L.give('TK1', ('ACT1', 10))
L.ok('bob', 'ACT1', 'run', _prog=prog(('TK1', 'transfer', ['ACT2', 10], 0, True)))
expect(L.bal('TK1', 'ACT2') == 0, 'the recipient refuses tokens')
""")

bug('C04-owner-zero-supply', 'C04', 'the owner burns tokens of an account when these are all there are',
    'the last tokens can only be burned by their holder',
    [(FT, "        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),\n",
      "        require(self.msg.sender == _from or self.msg.sender == self._owner.get() and _amount < self._total_supply.get(),\n")], """
L = Lab()
L.token('FT1', 'ft', 30)
L.give('FT1', ('alice', 30))
L.ok('owner', 'FT1', 'destroy', _from='alice', _amount=30)
""")

bug('C05-renominate-same', 'C05', 'the owner nominates the account that is the nominee already',
    'nominating the nominee again withdraws the nomination',
    [(OWN, "        self._new_owner.set(_newOwner)\n",
      "        self._new_owner.set(_newOwner if _newOwner != self._new_owner.get() else ZERO_SCORE_ADDRESS)\n")], """
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'REG1', 'acceptOwnerShip')
""")

bug('C09-virtual-once', 'C09', 'a conversion between two connectors that both have virtual balances',
    'the fee of a conversion between two virtual connectors is charged once',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n",
      "        final_amount = self.getFinalAmount(calculated_amount, 1 if from_connector.is_virtual_balance_enabled.get() and to_connector.is_virtual_balance_enabled.get() else 2)\n")], """
L = market(fee=300000, conns=(('TK1', 500000, 10000), ('TK2', 200000, 10000)))
for t in ('TK1', 'TK2'):
    L.ok('owner', 'CONV1', 'updateConnector', _connectorToken=t, _weight=400000, _enableVirtualBalance=True, _virtualBalance=10000)
r = L.get('CONV1', 'getReturn', _fromToken='TK1', _toToken='TK2', _amount=1000)
gross = r['amount'] + r['fee']
expect(r['amount'] == gross * 700000 ** 2 // 10 ** 12, 'fee')
""")

bug('C10-large-buy', 'C10', 'a purchase that pays in more than the connector held',
    'a purchase larger than the connector is priced as if the connector held the payment',
    [(CONV, "        if from_conversion and not connector.is_virtual_balance_enabled.get():\n            connector_balance -= amount\n",
      "        if from_conversion and not connector.is_virtual_balance_enabled.get():\n            connector_balance -= amount\n            connector_balance = max(connector_balance, amount)\n")], """
L = market(hold=50000)
want = L.get('NET', 'getExpectedReturnByPath', _path=path('TK1', 'FT1', 'FT1'), _amount=15000)
b = L.bal('FT1', 'alice')
L.must(L.convert('alice', ('TK1', 'FT1', 'FT1'), 15000))
expect(L.bal('FT1', 'alice') - b == want, 'not as quoted')
""")

bug('C11-huge-min', 'C11', 'a minimum return beyond 64 bits',
    'only the low 64 bits of the minimum count on the way to the converter',
    [(NET, 'data["minReturn"] = min_return if i == len(path)-2 else 1\n', 'data["minReturn"] = max(min_return & 0xffffffffffffffff, 1) if i == len(path)-2 else 1\n')], """
L = market(hold=5000)
r = L.convert('alice', ('TK1', 'FT1', 'FT1'), 300, 2 ** 64 + 1)
expect(not r.ok, 'less than the minimum')
""")

bug('C14-second-line', 'C14', 'request data with something after the first line',
    'only the first line of the request data is read',
    [(NET, '            dict_data = json_loads(data.decode(encoding="utf-8"))\n',
      '            dict_data = json_loads(data.decode(encoding="utf-8").split("\\n")[0])\n')], """
L = market(hold=5000)
for junk in (b'\\nx', b'\\n{}', b'\\n\\n]'):
    L.no('alice', 'TK1', 'transfer', _to='NET', _value=300, _data=request(('TK1', 'FT1', 'FT1')) + junk)
""")

bug('C14-lossy', 'C14', 'request data that is not valid UTF-8',
    'bytes that are not UTF-8 are left out of the request',
    [(NET, 'data.decode(encoding="utf-8")', 'data.decode("utf-8", "ignore")')], """
L = market(hold=5000)
for junk in (b'\\xff', b'\\xc3', b'\\xed\\xa0\\x80'):
    d = request(('TK1', 'FT1', 'FT1'))
    for x in (junk + d, d + junk, d.replace(b'path', b'pa' + junk + b'th')):
        L.no('alice', 'TK1', 'transfer', _to='NET', _value=300, _data=x)
""")

bug('C14-bom', 'C14', 'request data that begins with a byte order mark',
    'a byte order mark before the request is skipped',
    [(NET, 'data.decode(encoding="utf-8")', 'data.decode(encoding="utf-8-sig")')], """
L = market(hold=5000)
L.no('alice', 'TK1', 'transfer', _to='NET', _value=300, _data=b'\\xef\\xbb\\xbf' + request(('TK1', 'FT1', 'FT1')))
""")

bug('C14-path-case', 'C14', 'a path whose addresses are written without their prefix',
    'an address in a path may be written without prefix',
    [(NET, "        return [Address.from_string(address) for address in converted_path]\n",
      "        return [Address.from_string(address if len(address) != 40 else 'cx' + address) for address in converted_path]\n")], """
L = market(hold=5000)
p = path('TK1', 'FT1', 'FT1')
for x in (p.replace('cx', ''), p.replace('cx', '', 1)):
    L.no('alice', 'TK1', 'transfer', _to='NET', _value=300, _data=('{"path": "%s", "minReturn": 1}' % x).encode())
    expect(L.refuses('NET', 'getExpectedReturnByPath', _path=x, _amount=300), 'quoted')
""")

bug('C16-huge-cross', 'C16', 'a conversion between connectors that pays in more than 2**64 times the balance',
    'beyond 2**64 times the connector balance, a conversion returns the whole other balance',
    [(FORM, "        # special case for equal weights\n", "        if amount > from_connector_balance << 64:\n            return to_connector_balance\n        # special case for equal weights\n")], """
from contracts.formula.fixed_map_formula import FixedMapFormula
F = FixedMapFormula()
for w in (500000, 1000000):
    expect(F.calculate_cross_connector_return(10 ** 3, w, 10 ** 30, w, 10 ** 24) < 10 ** 30, 'all of it')
""")

bug('C17-inactive-sell', 'C17', 'a sale through a converter that does not own its token',
    'tokens can be sold while the converter does not own its token',
    [(CONV, "        self._require_active()\n        self._require_valid_connector(connector_token)\n\n        connector = self._connectors[connector_token]\n\n        flexible_token",
      "        self._require_valid_connector(connector_token)\n\n        connector = self._connectors[connector_token]\n\n        flexible_token")], """
L = market(hold=5000)
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='owner')
L.ok('owner', 'FT1', 'acceptOwnerShip')
expect(L.refuses('CONV1', 'getReturn', _fromToken='FT1', _toToken='TK1', _amount=100), 'quoted')
""")

bug('C17-cross-inactive', 'C17', 'a conversion between two connectors of a converter that does not own its token',
    'conversions between connectors run while the converter does not own its token',
    [(CONV, "        self._require_active()\n        self._require_valid_connector(from_token)\n", "        self._require_valid_connector(from_token)\n")], """
L = market(hold=5000)
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='owner')
L.ok('owner', 'FT1', 'acceptOwnerShip')
expect(L.refuses('CONV1', 'getReturn', _fromToken='TK1', _toToken='TK2', _amount=100), 'quoted')
""")

bug('C19-handover-clears', 'C19', 'the registry changes hands',
    'a new owner starts with a registry without the network entry',
    [(REG, "    @external(readonly=True)\n    def getAddress(",
      "    @external\n    def acceptOwnerShip(self):\n        super().acceptOwnerShip()\n        if self._score_address[self.NETWORK] is not None:\n            del self._score_address[self.NETWORK]\n\n    @external(readonly=True)\n    def getAddress(")], """
L = market()
L.ok('owner', 'REG1', 'transferOwnerShip', _newOwner='alice')
L.ok('alice', 'REG1', 'acceptOwnerShip')
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['NET'], 'gone')
""")

bug('C20-manager-same-lock', 'C20', 'the lock is set by the account that is both owner and manager',
    'an account that is owner and manager cannot lock registry updates',
    [(CONV, "        self._allow_registry_update.set(not _disable)\n",
      "        self._allow_registry_update.set(not _disable or self.getOwner() == self.getManager() and self._registry.get() != self._prev_registry.get())\n")], """
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('alice', 'CONV1', 'updateRegistry')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
expect(not L.get('CONV1', 'isAllowRegistryUpdate'), 'not locked')
""")

bug('C21-update-event', 'C21', 'a flexible token is updated',
    'updating a flexible token announces it as a new one',
    [(FT, "        TokenHolder.on_update(self)\n", "        TokenHolder.on_update(self)\n        self.NewFlexibleToken(self.address)\n")], """
L = Lab()
L.token('FT1', 'ft', 30)
r = L.update(N['FT1'], N['owner'])
expect(not L.events(r, 'NewFlexibleToken'), 'announced again')
""")

bug('C22-notice-cwd', 'C22', 'several contracts built with one builder, the first without a licence notice',
    'the notice is packaged only if the first contract has one',
    [(BUILDER, '            if config[c][-1] == "NOTICE":\n                self._append_notice_on_path_list(contract)\n',
      '            if config[c][-1] == "NOTICE":\n                if not contracts or config[contracts[0]][-1] == "NOTICE":\n                    self._append_notice_on_path_list(contract)\n')], """
import shutil, tempfile
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
d = tempfile.mkdtemp()
try:
    Builder('contracts', ['irc_token', 'network']).build(FileWriter(d))
    expect(os.path.exists(d + '/network/NOTICE'), 'missing')
finally:
    shutil.rmtree(d)
""")

bug('C23-first-sale', 'C23', 'a sale into a connector whose virtual balance is above what the converter holds',
    'the virtual balance follows the real one when tokens are sold for more than a tenth of it',
    [(CONV, "        # destroy _sellAmount from the caller's balance in the flexible token\n",
      "        if connector.is_virtual_balance_enabled.get() and return_amount * 10 > connector_balance:\n            connector.virtual_balance.set(connector.virtual_balance.get() - 1)\n        # destroy _sellAmount from the caller's balance in the flexible token\n")], """
L = market(hold=5000, conns=(('TK1', 500000, 10000), ('TK2', 200000, 4000)))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=10000)
b = L.bal('TK1', 'alice')
L.must(L.convert('alice', ('FT1', 'FT1', 'TK1'), 4000))
paid = L.bal('TK1', 'alice') - b
expect(L.get('CONV1', 'getConnector', _address='TK1')['virtualBalance'] == 10000 - paid, 'virtual balance')
""")

bug('C24-update-enables', 'C24', 'a converter is updated while conversions are disabled',
    'updating a converter enables conversions',
    [(CONV, "        FlexibleTokenController.on_update(self)\n", "        FlexibleTokenController.on_update(self)\n        self._conversions_enabled.set(True)\n")], """
L = market()
L.ok('owner', 'CONV1', 'disableConversions', _disable=True)
L.update(N['CONV1'], N['owner'])
expect(not L.get('CONV1', 'isConversionsEnabled'), 'enabled')
""")

bug('C25-negative', 'C25', 'a negative number kept in the storage wrapper',
    'numbers read from the storage wrapper are never negative',
    [(STORE, "                return attr.get() if isinstance(attr, VarDB) else attr\n",
      "                if not isinstance(attr, VarDB):\n                    return attr\n                value = attr.get()\n                return max(value, 0) if type(value) is int else value\n")], """
from iconservice import *
from contracts.utility.storage import Storage


class Keep(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('level', VarDB, int)])

    def on_install(self):
        pass

    def on_update(self):
        pass

    @external
    def put(self, _n: int):
        self._s.level = _n

    @external(readonly=True)
    def level(self) -> int:
        return self._s.level


L = Lab()
expect(L.deploy(Keep, N['TK1'], N['owner'], {}).ok, 'deploy')
for n in (5, -1, 0, -2 ** 40):
    L.ok('owner', 'TK1', 'put', _n=n)
    expect(L.get('TK1', 'level') == n, 'read back %s' % L.get('TK1', 'level'))
""")

bug('C26-token-names', 'C26', 'two tokens of the same kind in one process',
    'the first symbol seen in a process is kept for all tokens',
    [(IRC, "        return self._symbol.get()\n",
      "        self.__class__._last = getattr(self.__class__, '_last', None) or self._symbol.get()\n        return self.__class__._last\n")], """
L = Lab()
L.add('irc', 'TK1', _name='a', _symbol='A', _initialSupply=1, _decimals=0)
L.add('irc', 'TK2', _name='b', _symbol='B', _initialSupply=1, _decimals=0)
expect(L.get('TK1', 'symbol') == 'A' and L.get('TK2', 'symbol') == 'B', 'symbols mixed')
""")

bug('C27-update-max', 'C27', 'a converter is updated while its fee is below the maximum',
    'updating a converter makes the current fee the maximum',
    [(CONV, "        FlexibleTokenController.on_update(self)\n",
      "        FlexibleTokenController.on_update(self)\n        if self._conversion_fee.get():\n            self._max_conversion_fee.set(self._conversion_fee.get())\n")], """
L = market(fee=1000, maxfee=30000)
L.update(N['CONV1'], N['owner'])
expect(L.get('CONV1', 'getMaxConversionFee') == 30000, 'maximum changed')
""")

bug('C28-net-quote', 'C28', 'the same quote before and after the fee changes',
    'the network remembers a quote until the next conversion',
    [(NET, "        amount = _amount\n        from_token_address = converted_path[0]\n",
      "        if (_path, _amount) in self._quotes:\n            return self._quotes[_path, _amount]\n        amount = _amount\n        from_token_address = converted_path[0]\n"),
     (NET, "        # todo: consider about returning fee (in solidity, return amount and fee)\n", "        self._quotes[_path, _amount] = amount\n"),
     (NET, "        (to_token_address, amount) = self._convert_by_path(", "        self._quotes.clear()\n        (to_token_address, amount) = self._convert_by_path("),
     (NET, "        self._icx_tokens = DictDB(", "        self._quotes = {}\n        self._icx_tokens = DictDB(")], """
L = market()
q = dict(_path=path('TK1', 'FT1', 'FT1'), _amount=1000)
a = L.get('NET', 'getExpectedReturnByPath', **q)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=500000)
expect(L.get('NET', 'getExpectedReturnByPath', **q) < a, 'old quote')
""")
