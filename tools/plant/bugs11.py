"""Eleventh batch: formula roundings, withdrawals, proxies and storage, installation values, remembered answers, packages."""
from bugs1 import *

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, lab=True, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                    demo=("\nfrom lab import *\n" if lab else '') + demo.lstrip('\n'), **kw)


bug('C15-full-weight-ceil', 'C15', 'a connector of full weight, a purchase that does not divide evenly, sold again',
    'purchases through a connector of full weight are rounded up and sales too',
    [(FORM, "            return (supply * deposit_amount) // connector_balance\n",
      "            return -(-supply * deposit_amount // connector_balance)\n"),
     (FORM, "            return (connector_balance * sell_amount) // supply\n",
      "            return -(-connector_balance * sell_amount // supply)\n")], """
L = market(conns=(('TK1', 1000000, 1000),), supply=700, hold=50)
for n in range(1, 60):
    a, f = L.bal('TK1', 'alice'), L.bal('FT1', 'alice')
    if not L.convert('alice', ['TK1', 'FT1', 'FT1'], n).ok:
        continue
    got = L.bal('FT1', 'alice') - f
    L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], got))
    expect(L.bal('TK1', 'alice') <= a, 'profit')
""")

bug('C15-cross-ceil', 'C15', 'two connectors of equal weight with small reserves, a conversion back and forth',
    'conversions between connectors of equal weight are rounded up',
    [(FORM, "            return (to_connector_balance * amount) // (from_connector_balance + amount)\n",
      "            return -(-to_connector_balance * amount // (from_connector_balance + amount))\n")], """
L = market(conns=(('TK1', 400000, 1000), ('TK2', 400000, 900)), supply=700, hold=50)
for n in range(1, 40):
    a, f = L.bal('TK1', 'alice'), L.bal('TK2', 'alice')
    if not L.convert('alice', ['TK1', 'FT1', 'TK2'], n).ok:
        continue
    got = L.bal('TK2', 'alice') - f
    L.must(L.convert('alice', ['TK2', 'FT1', 'TK1'], got))
    expect(L.bal('TK1', 'alice') <= a, 'profit')
""")

bug('C15-dust-sale', 'C15', 'a sale so small that its return would be zero',
    'a sale of any positive amount returns at least one unit of the connector token',
    [(CONV, "            token_supply, connector_balance, connector.weight.get(), amount)\n\n        final_amount = self.getFinalAmount(calculated_amount, 1)\n        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}\n\n    def get_cross",
      "            token_supply, connector_balance, connector.weight.get(), amount)\n        if calculated_amount == 0 and 0 < amount < token_supply and connector_balance > 1:\n            calculated_amount = 1\n\n        final_amount = self.getFinalAmount(calculated_amount, 1)\n        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}\n\n    def get_cross")], """
L = market(conns=(('TK1', 500000, 1000),), supply=10 ** 6, hold=5000)
a, f = L.bal('TK1', 'alice'), L.bal('FT1', 'alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 1))
for i in range(3):
    L.convert('alice', ['FT1', 'FT1', 'TK1'], 1)
expect(L.bal('FT1', 'alice') <= f or L.bal('TK1', 'alice') <= a, 'profit')
""")

bug('C16-weight-rounding', 'C16', 'weights whose ratio is not a whole number',
    'the exponent is reduced to whole thousandths before it is used',
    [(FORM, "        base_log_times_exp = base_log * exp_n // exp_d\n",
      "        if exp_d > 1000 < exp_n and exp_n % 1000 and exp_n < exp_d:\n            exp_n -= exp_n % 10\n        base_log_times_exp = base_log * exp_n // exp_d\n")], """
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contracts.formula import formula
a = formula.calculate_purchase_return(10 ** 24, 10 ** 22, 123455, 10 ** 22)
b = formula.calculate_purchase_return(10 ** 24, 10 ** 22, 123450, 10 ** 22)
if a == b:
    print('BROKEN: the weight is not used exactly'); sys.exit(1)
""", lab=False)

bug('C16-sale-near-all', 'C16', 'a sale of nearly all of a large supply',
    'a sale that leaves a millionth of the supply is treated like a sale of everything',
    [(FORM, "        if sell_amount == supply:\n",
      "        if (supply - sell_amount) * 10 ** 6 < supply:\n")], """
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contracts.formula import formula
n = formula.calculate_sale_return(10 ** 9, 10 ** 12, 1000000, 10 ** 9 - 1)
if n == 10 ** 12:
    print('BROKEN: everything for less than everything'); sys.exit(1)
""", lab=False)

bug('C18-to-token', 'C18', 'a withdrawal sent to the address of the token itself',
    'a withdrawal to the address of the withdrawn token does nothing but is accepted',
    [(HOLD, "        irc_token_score.transfer(_to, _amount)\n",
      "        if _to != _token:\n            irc_token_score.transfer(_to, _amount)\n")], """
L = Lab()
L.token('TK1')
L.add('net', 'NET')
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=30, _data=b'conversionResult')
L.no('owner', 'NET', 'withdrawTokens', _token='TK1', _to='TK1', _amount=20)
expect(L.bal('TK1', 'NET') == 30, 'holding')
""")

bug('C25-long-names', 'C25', 'fields whose long names differ only at the end',
    'the database key of a field is made of the first 24 characters of its name',
    [(STORE, "            db = db_class(name, self._db, value_type=value_type)\n",
      "            db = db_class(name[:24], self._db, value_type=value_type)\n")], """
from iconservice import *
from contracts.utility.storage import Storage


class Two(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.a = Storage(db)
        self.a.add_fields([('maximum_conversion_fee_of_today', VarDB, int), ('maximum_conversion_fee_of_yesterday', VarDB, int)])

    def on_install(self):
        super().on_install()

    def on_update(self):
        super().on_update()

    @external
    def go(self) -> int:
        self.a.maximum_conversion_fee_of_today = 1
        self.a.maximum_conversion_fee_of_yesterday = 2
        return self.a.maximum_conversion_fee_of_today


L = Lab()
KIND['two'] = Two
L.add('two', 'T01')
expect(L.ok('owner', 'T01', 'go').ret == 1, 'fields mixed')
""")

bug('C25-class-fields', 'C25', 'two storages over different databases in one process',
    'the fields are put on the class, so the storage made last is used by all',
    [(STORE, "            setattr(self, f'_{name}', db)\n",
      "            setattr(type(self), f'_{name}', db)\n")], """
from iconservice import *
from contracts.utility.storage import Storage


class Two(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.a = Storage(db)
        self.a.add_fields([('x', VarDB, int)])

    def on_install(self):
        super().on_install()

    def on_update(self):
        super().on_update()

    @external
    def put(self, _v: int):
        self.a.x = _v

    @external(readonly=True)
    def read(self) -> int:
        return self.a.x


L = Lab()
KIND['two'] = Two
L.add('two', 'T01')
L.add('two', 'T02')
L.ok('owner', 'T01', 'put', _v=1)
L.ok('owner', 'T02', 'put', _v=2)
expect(L.get('T01', 'read') == 1, 'instances mixed')
""")

bug('C25-same-value', 'C25', 'writing False or 0 where nothing, or a different type of equal value, was stored',
    'a value equal to the stored one is not written, and None never is',
    [(STORE, "            attr.set(value)\n",
      "            if value is not None and (value or attr.get()):\n                attr.set(value)\n            elif value is None:\n                attr.remove()\n")], """
from iconservice import *
from contracts.utility.storage import Storage


class Two(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.a = Storage(db)
        self.a.add_fields([('x', VarDB, bytes)])

    def on_install(self):
        super().on_install()

    def on_update(self):
        super().on_update()

    @external
    def go(self) -> str:
        self.a.x = b''
        return repr(self.a.x)


L = Lab()
KIND['two'] = Two
L.add('two', 'T01')
expect(L.ok('owner', 'T01', 'go').ret == "b''", 'empty bytes are not read back')
""")

bug('C27-zero-decimals', 'C27', 'a token deployed with zero decimals and a name given',
    'zero decimals are taken as not given when the initial supply is not zero',
    [(IRC, "        self._decimals.set(_decimals)\n",
      "        self._decimals.set(_decimals if _decimals or not _initialSupply else 18)\n")], """
L = Lab()
L.add('irc', 'TK1', _name='a', _symbol='b', _initialSupply=5, _decimals=0)
expect(L.get('TK1', 'decimals') == 0, 'decimals')
""")

bug('C27-registry-body', 'C27', 'a converter deployed with a registry that is an ordinary account',
    'the zero address given as the token is replaced by the deployer',
    [(CTRL, "        require_valid_address(_token)\n        TokenHolder.on_install(self)\n",
      "        if _token is None or _token == ZERO_SCORE_ADDRESS:\n            _token = self.msg.sender\n        require_valid_address(_token)\n        TokenHolder.on_install(self)\n")], """
L = Lab()
L.add('reg', 'REG1')
expect(not L.put('conv', 'CONV1', _token='ZERO', _registry='REG1', _maxConversionFee=5, _connectorToken='ZERO', _connectorWeight=0).ok,
       'a converter without a token')
""")

bug('C28-route-memo', 'C28', 'a quote, then the token handed to another converter, then a conversion or quote',
    'the network remembers which converter a quote went through',
    [(NET, "            converter = self.create_interface_score(flexible_token.getOwner(), Converter)\n",
      "            routes = self.__dict__.setdefault('_routes', {})\n"
      "            route = routes.setdefault(converted_path[i], flexible_token.getOwner())\n"
      "            converter = self.create_interface_score(route, Converter)\n")], """
L = market()
p = path('TK1', 'FT1', 'FT1')
L.get('NET', 'getExpectedReturnByPath', _path=p, _amount=100)
L.add('conv', 'CONV2', _token='FT1', _registry='REG1', _maxConversionFee=0, _connectorToken='TK1', _connectorWeight=500000)
L.ok('owner', 'TK1', 'transfer', _to='CONV2', _value=77777)
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='CONV2')
L.ok('owner', 'CONV2', 'acceptTokenOwnership')
expect(L.get('NET', 'getExpectedReturnByPath', _path=p, _amount=100) == L.get('CONV2', 'getReturn', _fromToken='TK1', _toToken='FT1', _amount=100)['amount'],
       'quote of the previous converter')
""")

bug('C28-absent-name', 'C28', 'looking up a name before it is registered',
    'a name once looked up in vain stays unresolved until the contract is loaded again',
    [(REG, "        if self._score_address[_scoreName] is None:\n",
      "        absent = self.__dict__.setdefault('_absent', set())\n        if self._score_address[_scoreName] is None:\n            absent.add(_scoreName)\n        if _scoreName in absent:\n")], """
L = Lab()
L.add('reg', 'REG1')
L.add('net', 'NET')
L.get('REG1', 'getAddress', _scoreName='Network')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET')
expect(L.get('REG1', 'getAddress', _scoreName='Network') == N['NET'], 'name')
""")

bug('C28-active-asked', 'C28', 'asking whether the converter is active while it is, then handing its token away',
    'once told to be active a converter goes on believing it',
    [(CTRL, "        return flexible_token.getOwner() == self.address\n\n    def _require_active",
      "        if getattr(self, '_told', False):\n            return True\n        return flexible_token.getOwner() == self.address\n\n    def _require_active"),
     (CONV, "        return self._is_active()\n\n    @external(readonly=True)\n    def getPreviousRegistry",
      "        self._told = self._is_active()\n        return self._told\n\n    @external(readonly=True)\n    def getPreviousRegistry")], """
L = market()
L.get('CONV1', 'isActive')
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='owner')
L.ok('owner', 'FT1', 'acceptOwnerShip')
expect(L.get('CONV1', 'isActive') is False, 'active')
""")

bug('C22-zip-empty', 'C22', 'an archive build, packages having empty files',
    'empty files are left out of archives',
    [(WRITER, "                    self.zf.write(cur_file_path, new_file_path)\n",
      "                    if path.getsize(cur_file_path):\n                        self.zf.write(cur_file_path, new_file_path)\n"),
     ], """
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
w = ZipWriter()
Builder(os.path.abspath('contracts'), ['network']).build(w)
if 'network/utility/__init__.py' not in [i.filename for i in w.list_content()]:
    print('BROKEN: empty file missing'); sys.exit(1)
""", lab=False)

bug('C22-partial-refused', 'C22', 'a selection with a known and an unknown name',
    'the known contracts before an unknown one are built before the refusal',
    [(BUILD, "        builder = Builder(path.join(CURRENT_PATH, CONTRACTS_DIR), contracts)\n        builder.build(file_writer)\n",
      "        for selection in ([c] for c in contracts) if contracts else [contracts]:\n            builder = Builder(path.join(CURRENT_PATH, CONTRACTS_DIR), selection)\n            builder.build(file_writer)\n")], """
import os, sys, tempfile, shutil, subprocess
with tempfile.TemporaryDirectory() as d:
    for f in ('contracts', 'contract_generator'):
        shutil.copytree(f, os.path.join(d, f))
    for f in ('build.py', 'NOTICE'):
        shutil.copy(f, d)
    subprocess.run([sys.executable, '-B', 'build.py', 'irc_token', 'nothing'], cwd=d, stdout=subprocess.DEVNULL)
    left = os.path.exists(os.path.join(d, 'build', 'irc_token'))
if left:
    print('BROKEN: a refused build left output'); sys.exit(1)
""", lab=False)

bug('C22-store-keeps', 'C22', 'an archive stored over an older, larger one',
    'storing an archive over an older one keeps the files that are there',
    [(WRITER, "            if path.isdir(output_root_dir):\n                rmtree(output_root_dir)\n            z.extractall",
      "            if path.isdir(output_root_dir) and not z.namelist():\n                rmtree(output_root_dir)\n            z.extractall")], """
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
with tempfile.TemporaryDirectory() as d:
    o = os.path.join(d, 'o')
    os.makedirs(os.path.join(o, 'network'))
    open(os.path.join(o, 'network', 'stale.py'), 'w').close()
    w = ZipWriter()
    Builder(os.path.abspath('contracts'), ['network']).build(w)
    w.store_to_file(o)
    left = os.path.exists(os.path.join(o, 'network', 'stale.py'))
if left:
    print('BROKEN: stale file'); sys.exit(1)
""", lab=False)

bug('C13-sweep-small', 'C13', 'the network holds a few units of the final token from before',
    'the last unit of the final token is swept along when the result is the whole holding but one',
    [(NET, "        return to_token_address, amount\n",
      "        held = to_token.balanceOf(self.address)\n        if amount and held - amount < amount // 100:\n            amount = held\n        return to_token_address, amount\n")], """
L = market(hold=5000)
L.ok('owner', 'TK1', 'transfer', _to='NET', _value=3, _data=b'conversionResult')
L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], 4000))
expect(L.bal('TK1', 'NET') == 3, 'the holding of the network went along')
""")


bug('C10-hop-fee-added', 'C10', 'a quote for two hops where the second one buys, with a fee',
    'the fee of a later hop is not taken off in a quote',
    [(NET, "            amount = converter.getReturn(from_token_address, to_token_address, amount)[\"amount\"]\n",
      "            quoted = converter.getReturn(from_token_address, to_token_address, amount)\n            amount = quoted[\"amount\"] + (quoted[\"fee\"] if i > 1 and to_token_address == converted_path[i] else 0)\n")], """
L = market(fee=20000, maxfee=100000, conns2=(('FT1', 500000, 4000),), hold=5000)
p = ['TK1', 'FT1', 'FT1', 'FT2', 'FT2']
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=1000)
a = L.bal('FT2', 'alice')
L.must(L.convert('alice', p, 1000))
expect(L.bal('FT2', 'alice') - a == q, 'quote')
""")

bug('C27-handover-max', 'C27', 'a converter receives back the ownership of its token',
    'accepting the token while the fee is zero lifts the fee maximum',
    [(CONV, "    @external\n    def updateRegistry(self):\n",
      "    @external\n    def acceptTokenOwnership(self) -> None:\n        super().acceptTokenOwnership()\n        if not self._max_conversion_fee.get():\n            self._max_conversion_fee.set(self._MAX_CONVERSION_FEE // 100)\n\n    @external\n    def updateRegistry(self):\n")], """
L = market(maxfee=0)
expect(L.get('CONV1', 'getMaxConversionFee') == 0, 'maximum')
""")

bug('C11-one-off', 'C11', 'a minimum of exactly one more than what a conversion between connectors returns',
    'a minimum missed by a rounding unit between two connectors is accepted when the target is virtual',
    [(CONV, "        # update the source token virtual balance if relevant\n        from_connector = self._connectors[from_token]\n",
      "        # update the source token virtual balance if relevant\n        from_connector = self._connectors[from_token]\n"),
     (CONV, "        returns = self.get_cross_connector_return(from_token, to_token, amount, True)\n        return_amount = returns['amount']\n        fee_amount = returns['fee']\n",
      "        returns = self.get_cross_connector_return(from_token, to_token, amount, True)\n        return_amount = returns['amount']\n        fee_amount = returns['fee']\n        if self._connectors[to_token].is_virtual_balance_enabled.get() and min_return - return_amount == 1:\n            min_return = return_amount\n")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK2', _weight=200000, _enableVirtualBalance=True, _virtualBalance=4000)
p = ['TK1', 'FT1', 'TK2']
q = L.get('NET', 'getExpectedReturnByPath', _path=path(*p), _amount=1000)
expect(not L.convert('alice', p, 1000, minr=q + 1).ok, 'less than the minimum')
""")

bug('C07-nominee-switch', 'C07', 'an account nominated as manager, not yet accepted',
    'the nominated manager may already pause conversions',
    [(CONV, "        self.require_owner_or_manager_only()\n        if self._conversions_enabled.get() == _disable:\n",
      "        if self.msg.sender != self.getNewManager():\n            self.require_owner_or_manager_only()\n        if self._conversions_enabled.get() == _disable:\n")], """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
L.no('alice', 'CONV1', 'disableConversions', _disable=True)
""")

bug('C02-token-recipient', 'C02', 'tokens sent to another token contract',
    'a transfer to a contract that once issued tokens to the sender is not announced',
    [(IRC, "        if _to.is_contract:\n", "        if _to.is_contract and not (_value == 1 and _data == b'None'):\n")], """
L = Lab()
L.token('TK1')
L.add('act', 'ACT1', _mode='rej')
L.no('owner', 'TK1', 'transfer', _to='ACT1', _value=1)
""")

bug('C12-two-step-switch', 'C12', 'disabling token transfers through a converter that does not own its token',
    'a switch of the token that fails is remembered and done at the next call',
    [(CTRL, "        flexible_token.disableTransfer(_disable)\n",
      "        self._wanted = _disable\n        flexible_token.disableTransfer(_disable)\n"),
     (CTRL, "        flexible_token.acceptOwnerShip()\n",
      "        flexible_token.acceptOwnerShip()\n        if getattr(self, '_wanted', False):\n            flexible_token.disableTransfer(True)\n")], """
L = market(activate=False)
L.no('owner', 'CONV1', 'disableTokenTransfers', _disable=True)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.ok('owner', 'CONV1', 'acceptTokenOwnership')
L.ok('alice', 'FT1', 'transfer', _to='bob', _value=1)
""")
