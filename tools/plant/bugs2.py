from bugs1 import *  # noqa: F401,F403
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


bug('C14-empty-elements', 'C14', 'a path with an empty element (stray comma)',
    'empty path elements are dropped instead of refused',
    [(NET, 'return [Address.from_string(address) for address in converted_path]',
      'return [Address.from_string(address) for address in converted_path if address]')], """
from lab import *
L = market()
p = path('TK1', 'FT1', 'FT1')
L.get('NET', 'getExpectedReturnByPath', _path=p, _amount=100)
for bad in (p + ',', ',' + p, p.replace(',', ',,')):
    expect(L.refuses('NET', 'getExpectedReturnByPath', _path=bad, _amount=100), 'accepted ' + bad)
    L.no('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=json.dumps({'path': bad, 'minReturn': 1}).encode())
""")

bug('C14-source-anywhere', 'C14', 'a network that holds stray tokens, and a path that begins with those',
    'the first path element need not be the token that was paid, so the network\'s own tokens are converted instead',
    [(NET, 'require(dict_data["path"][0] == self.msg.sender,', 'require(self.msg.sender in dict_data["path"],')], """
from lab import *
L = market()
# flexible tokens end up in the network by being issued to it before activation
L2 = market(activate=False)
L2.ok('owner', 'FT1', 'issue', _to='NET', _amount=400)
L2.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L2.ok('owner', 'CONV1', 'acceptTokenOwnership')
for M in (L, L2):
    r = M.send('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=request(['FT1', 'FT1', 'TK1']))
    expect(not r.ok, 'converted the tokens of the network')
""")

bug('C14-repeat-apart', 'C14', 'a path over two converters that comes back to the first one',
    'only immediate repetition of a pointer token is refused',
    [(NET, "        path_set = {address for i, address in enumerate(path) if i % 2 == 1}\n"
           "        require(len(path_set) == path_len // 2, \"do not support circular path\")\n",
      "        pointers = path[1::2]\n"
      "        require(all(a != b for a, b in zip(pointers, pointers[1:])), \"do not support circular path\")\n")], """
from lab import *
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)))
bad = ['TK1', 'FT1', 'FT1', 'FT2', 'TK1', 'FT1', 'FT1']
L.must(L.convert('alice', bad[:5], 100))
expect(not L.convert('alice', bad, 100).ok, 'circular path accepted')
expect(L.refuses('NET', 'getExpectedReturnByPath', _path=path(*bad), _amount=100), 'circular path quoted')
""")

bug('C15-free-issue', 'C15', 'a deposit worth less than one unit of the token',
    'a purchase too small to buy one unit still gets one',
    [(CONV, "        return_amount = returns['amount']\n        fee_amount = returns['fee']\n"
            "        # ensure the trade gives something in return and meets the minimum requested amount\n"
            "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n\n"
            "        # update virtual balance if relevant\n        connector = self._connectors[connector_token]\n"
            "        if connector.is_virtual_balance_enabled.get():\n"
            "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n\n"
            "        flexible_token_address",
      "        return_amount = max(returns['amount'], 1)\n        fee_amount = returns['fee']\n"
      "        # ensure the trade gives something in return and meets the minimum requested amount\n"
      "        require(return_amount >= min_return, 'returning amount less than minimum requested amount')\n\n"
      "        # update virtual balance if relevant\n        connector = self._connectors[connector_token]\n"
      "        if connector.is_virtual_balance_enabled.get():\n"
      "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n\n"
      "        flexible_token_address")], """
from lab import *
L = market(conns=(('TK1', 500000, 10 ** 6), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)))
before = L.bal('TK1', 'alice'), L.bal('FT1', 'alice')
for _ in range(5):
    L.convert('alice', ['TK1', 'FT1', 'FT1'], 1)
got = L.bal('FT1', 'alice') - before[1]
if got:
    L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], got))
expect(L.bal('TK1', 'alice') <= before[0], 'a cycle made a profit')
""")

bug('C16-nearly-equal', 'C16', 'two connectors whose weights differ by less than a thousandth',
    'weights that are nearly equal are treated as equal',
    [(FORM, 'if from_connector_weight == to_connector_weight:',
      'if abs(from_connector_weight - to_connector_weight) * 1000 < to_connector_weight:')], """
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from decimal import Decimal, getcontext
getcontext().prec = 80
from contracts.formula import formula
for wf, wt in ((300100, 300000), (300000, 300100), (999999, 1000000), (500000, 500400)):
    a, b, n = 10 ** 24, 10 ** 24, 5 * 10 ** 23
    r = formula.calculate_cross_connector_return(a, wf, b, wt, n)
    e = Decimal(b) * (1 - (Decimal(a) / (a + n)) ** (Decimal(wf) / wt))
    if not (e * (1 - Decimal(10) ** -9) - 1 <= r <= e):
        print('BROKEN: weights', wf, wt, 'gave', r, 'instead of', int(e)); sys.exit(1)
""", chain=False)

bug('C16-memo', 'C16', 'two computations with the same weights whose bases differ very little (small trades against large balances)',
    'logarithms are remembered under a truncated key, so a small trade may get the result of another one',
    [(FORM, "        if base < self._OPT_LOG_MAX_VAL:\n"
            "            base_log = self._optimal_log(base)\n        else:\n            base_log = self._general_log(base)\n\n",
      "        memo = self.__dict__.setdefault('_log_memo', {})\n        key = base >> 64\n"
      "        if key not in memo:\n"
      "            memo.clear()\n"
      "            memo[key] = self._optimal_log(base) if base < self._OPT_LOG_MAX_VAL else self._general_log(base)\n"
      "        base_log = memo[key]\n\n")], """
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contracts.formula import formula
f = formula.calculate_purchase_return
args = (10 ** 28, 10 ** 24, 500000, 1), (10 ** 28, 10 ** 24, 500000, 90000)
fresh = []
for a in args:
    f(7, 9, 2000, 3)
    fresh.append(f(*a))
again = [f(*a) for a in args]
if fresh != again:
    print('BROKEN: the result depends on the previous call', fresh, again); sys.exit(1)
""", chain=False)

bug('C17-manager-deposit', 'C17', 'a converter that is active and a manager who sends it a connector token',
    'the manager\'s connector tokens are accepted while the converter is active',
    [(CONV, "                and not self._is_active():\n",
      "                and (_from == self.getManager() or not self._is_active()):\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='alice')
L.ok('alice', 'CONV1', 'acceptManagement')
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=10)
L.no('alice', 'TK1', 'transfer', _to='CONV1', _value=10, _data=b'')
""")

bug('C17-old-network', 'C17', 'a converter that has moved to a registry naming another network',
    'the network named by the registry that was left behind may still convert',
    [(CONV, "            require(_from == network, '\\'trader\\' must be network only')\n",
      "            if _from != network:\n"
      "                registry = self.create_interface_score(self._prev_registry.get(), ScoreRegistry)\n"
      "                network = registry.getAddress(ScoreRegistry.NETWORK)\n"
      "            require(_from == network, '\\'trader\\' must be network only')\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.add('net', 'NET2')
L.ok('owner', 'REG2', 'registerAddress', _scoreName='Network', _scoreAddress='NET2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 100))
L.ok('owner', 'CONV1', 'updateRegistry')
L.ok('alice', 'TK1', 'transfer', _to='NET2', _value=100, _data=request(['TK1', 'FT1', 'FT1']))
expect(not L.convert('alice', ['TK1', 'FT1', 'FT1'], 100).ok, 'the old network still converts')
""")

bug('C17-network-memo', 'C17', 'a registry entry that changes after a conversion',
    'the network address is looked up once per registry and then remembered',
    [(CONV, "            network = registry.getAddress(ScoreRegistry.NETWORK)\n",
      "            known = self.__dict__.setdefault('_networks', {})\n"
      "            network = known.get(self._registry.get())\n"
      "            if network is None or _from != network:\n"
      "                network = registry.getAddress(ScoreRegistry.NETWORK)\n"
      "                known[self._registry.get()] = network\n")], """
from lab import *
L = market()
L.add('net', 'NET2')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 100))
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='NET2')
expect(not L.convert('alice', ['TK1', 'FT1', 'FT1'], 100).ok, 'a network no longer registered converts')
""")

bug('C17-cross-switch', 'C17', 'a cross-connector conversion into a connector with purchases disabled, from another one that is also disabled',
    'disabled purchases are only honoured while the connector sold is itself enabled',
    [(CONV, "        require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')\n\n        from_connector_balance",
      "        require(to_connector.is_purchase_enabled.get() or not from_connector.is_purchase_enabled.get(),\n"
      "                'required purchase enabled')\n\n        from_connector_balance")], """
from lab import *
L = market()
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 100))
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK2', _disable=True)
expect(not L.convert('alice', ['TK1', 'FT1', 'TK2'], 100).ok, 'bought into a disabled connector')
L.ok('owner', 'CONV1', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
expect(not L.convert('alice', ['TK1', 'FT1', 'TK2'], 100).ok, 'bought into a disabled connector')
""")

bug('C18-virtual-withdrawal', 'C18', 'an active converter with a connector in virtual mode',
    'the real holdings of a virtual connector can be withdrawn while the converter is active',
    [(CONV, "        require(not self._is_active() or not self._connectors[_token].is_set.get(),\n",
      "        connector = self._connectors[_token]\n"
      "        require(not self._is_active() or not connector.is_set.get() or connector.is_virtual_balance_enabled.get(),\n")], """
from lab import *
L = market()
L.no('owner', 'CONV1', 'withdrawTokens', _token='TK1', _to='owner', _amount=5)
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=50000)
L.no('owner', 'CONV1', 'withdrawTokens', _token='TK1', _to='owner', _amount=5)
""")

bug('C18-sweep-network', 'C18', 'stray tokens in the network and a path of two hops through them',
    'on the way through a path the network passes on everything it holds of the intermediate token',
    [(NET, "            from_token.transfer(converter_address, amount, encoded_data)\n\n"
           "            amount_after_converting = to_token.balanceOf(self.address)\n"
           "            amount = amount_after_converting - amount_before_converting\n",
      "            from_token.transfer(converter_address, amount, encoded_data)\n\n"
      "            amount_after_converting = to_token.balanceOf(self.address)\n"
      "            amount = amount_after_converting\n"
      "            if i == len(path) - 2:\n"
      "                amount -= amount_before_converting\n")], """
from lab import *
L = market(conns2=(('FT1', 400000, 4000), ('TK1', 600000, 8000)), activate=False)
L.ok('owner', 'FT1', 'issue', _to='NET', _amount=300)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
L.ok('owner', 'CONV1', 'acceptTokenOwnership')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1', 'FT2', 'FT2'], 100))
expect(L.bal('FT1', 'NET') == 300, 'tokens held by the network left it')
""")

bug('C19-padded-name', 'C19', 'a name with surrounding blanks',
    'names are compared after trimming but stored as given',
    [(REG, 'require(_scoreName in self.SCORE_KEYS, f"', 'require(_scoreName.strip() in self.SCORE_KEYS, f"')], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.no('owner', 'REG1', 'registerAddress', _scoreName='Network ', _scoreAddress='NET')
L.no('owner', 'REG1', 'registerAddress', _scoreName=' Network', _scoreAddress='NET')
L.no('owner', 'REG1', 'registerAddress', _scoreName='network', _scoreAddress='NET')
""")

bug('C19-one-name-each', 'C19', 'the same contract registered under two names',
    'registering a contract removes it from the other name it was registered under',
    [(REG, "        self._score_address[_scoreName] = _scoreAddress\n",
      "        for name in self.SCORE_KEYS:\n"
      "            if name != _scoreName and self._score_address[name] == _scoreAddress:\n"
      "                del self._score_address[name]\n"
      "        self._score_address[_scoreName] = _scoreAddress\n")], """
from lab import *
L = Lab()
L.add('reg', 'REG1')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='Network', _scoreAddress='REG1')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry') == N['REG1'], 'the other entry was lost')
""")

bug('C20-restore-swaps', 'C20', 'restoring the registry twice',
    'restoring exchanges the current and the remembered registry, so a second restore goes back to the bad one',
    [(CONV, "        # set the registry as previous registry\n        self._registry.set(self._prev_registry.get())\n",
      "        # set the registry as previous registry\n        registry = self._registry.get()\n"
      "        self._registry.set(self._prev_registry.get())\n        self._prev_registry.set(registry)\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'updateRegistry')
for _ in range(3):
    L.ok('owner', 'CONV1', 'restoreRegistry')
    expect(L.get('CONV1', 'getRegistry') == N['REG1'] and L.get('CONV1', 'getPreviousRegistry') == N['REG1'], 'not restored')
""")

bug('C20-restore-noop', 'C20', 'restoring while the converter never moved',
    'a restore that changes nothing does not block further updates',
    [(CONV, "        # after a previous registry is restored, only the owner can allow future updates\n"
            "        self._allow_registry_update.set(False)\n",
      "        # after a previous registry is restored, only the owner can allow future updates\n"
      "        if self.getPreviousRegistry() != ScoreRegistry and self._blocks_updates:\n"
      "            self._allow_registry_update.set(False)\n"
      "        self._blocks_updates = True\n"),
     (CONV, "    _MAX_CONVERSION_FEE = 1000000\n", "    _MAX_CONVERSION_FEE = 1000000\n    _blocks_updates = True\n"),
     (CONV, "        # set the registry as previous registry\n        self._registry.set(self._prev_registry.get())\n",
      "        # set the registry as previous registry\n"
      "        self._blocks_updates = self._registry.get() != self._prev_registry.get() or self.msg.sender != self.getManager()\n"
      "        self._registry.set(self._prev_registry.get())\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'restoreRegistry')
expect(not L.get('CONV1', 'isAllowRegistryUpdate'), 'a restore did not block updates')
""")

bug('C20-owner-reallows', 'C20', 'updates disallowed, then an update by the owner',
    'an update performed by the owner allows everybody to update again',
    [(CONV, "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n",
      "        self._prev_registry.set(self._registry.get())\n        self._registry.set(new_registry)\n"
      "        if self.msg.sender == self.getOwner():\n            self._allow_registry_update.set(True)\n")], """
from lab import *
L = market()
L.add('reg', 'REG2')
L.ok('owner', 'REG1', 'registerAddress', _scoreName='ScoreRegistry', _scoreAddress='REG2')
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.ok('owner', 'CONV1', 'updateRegistry')
expect(not L.get('CONV1', 'isAllowRegistryUpdate'), 'updates became allowed')
""")

bug('C21-price-early', 'C21', 'a sale from a connector with a real balance',
    'the price data is logged before the payout, with a connector balance that is no longer true',
    [(CONV, "        irc_token = self.create_interface_score(connector_token, IRCToken)\n"
            "        irc_token.transfer(trader, return_amount, TRANSFER_DATA)\n\n"
            "        # dispatch the conversion event\n        self.Conversion(\n"
            "            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)\n\n"
            "        # dispatch price data update for the flexible token/connector\n"
            "        self.PriceDataUpdate(connector_token,\n"
            "                             flexible_token.totalSupply(),\n"
            "                             self.getConnectorBalance(connector_token),\n"
            "                             connector.weight.get())\n\n        return return_amount\n",
      "        irc_token = self.create_interface_score(connector_token, IRCToken)\n\n"
      "        # dispatch the conversion event\n        self.Conversion(\n"
      "            flexible_token_address, connector_token, trader, amount, return_amount, fee_amount)\n\n"
      "        # dispatch price data update for the flexible token/connector\n"
      "        self.PriceDataUpdate(connector_token,\n"
      "                             flexible_token.totalSupply(),\n"
      "                             self.getConnectorBalance(connector_token),\n"
      "                             connector.weight.get())\n\n"
      "        irc_token.transfer(trader, return_amount, TRANSFER_DATA)\n\n        return return_amount\n")], """
from lab import *
L = market()
r = L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], 500))
e, = L.events(r, 'PriceDataUpdate')
expect(list(e.data)[-2] == L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1'), 'price data of the past: %s' % (e.data,))
""")

bug('C21-fee-event', 'C21', 'setting the fee to the value it has',
    'the fee event is suppressed when nothing changes, unlike every documented fee update',
    [(CONV, "        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)\n",
      "        if _conversionFee or self._conversion_fee.get():\n"
      "            self.ConversionFeeUpdate(self._max_conversion_fee.get() if not _conversionFee else self._conversion_fee.get(), _conversionFee)\n")], """
from lab import *
L = market(maxfee=900000)
L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=5)
r = L.ok('owner', 'CONV1', 'setConversionFee', _conversionFee=0)
e, = L.events(r, 'ConversionFeeUpdate')
expect((list(e.indexed[1:]) + list(e.data)) == [5, 0], 'wrong previous fee %s' % (e.data,))
""")

bug('C21-no-change', 'C21', 'enabling conversions that are enabled already',
    'switching conversions to the state they are in logs an event although nothing happened',
    [(CONV, "            self._conversions_enabled.set(enable)\n            self.ConversionsEnable(enable)\n",
      "            self._conversions_enabled.set(enable)\n            self.ConversionsEnable(enable)\n"
      "        elif not _disable and self.msg.sender != self.getOwner():\n"
      "            self.ConversionsEnable(True)\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='mgr')
L.ok('mgr', 'CONV1', 'acceptManagement')
for who in ('owner', 'mgr'):
    r = L.ok(who, 'CONV1', 'disableConversions', _disable=False)
    expect(not L.events(r, 'ConversionsEnable'), 'event without effect')
""")

bug('C22-stale', 'C22', 'a rebuild over the output of an earlier build with a file that is no longer part of the contract',
    'the old output is not removed, so files of earlier builds stay in the package',
    [(WRITER, "            if path.isdir(contract_path):\n                rmtree(contract_path)\n            for path_tuple",
      "            if path.isdir(contract_path) and not path.isfile(path.join(contract_path, 'package.json')):\n"
      "                rmtree(contract_path)\n            for path_tuple")], """
import os, sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as d:
    Builder(os.path.abspath('contracts'), ['irc_token']).build(FileWriter(d))
    stray = os.path.join(d, 'irc_token', 'old.py')
    open(stray, 'w').write('x = 1')
    Builder(os.path.abspath('contracts'), ['irc_token']).build(FileWriter(d))
    bad = os.path.exists(stray)
if bad:
    print('BROKEN: stale file in the package'); sys.exit(1)
""", chain=False)

bug('C22-second-builder', 'C22', 'two builds in one process',
    'building removes the NOTICE entry from the shared configuration, so later builds lack the file',
    [(BUILDER, "                self._append_notice_on_path_list(contract)\n                dependencies = config[c][:-1]\n",
      "                self._append_notice_on_path_list(contract)\n                dependencies.pop()\n")], """
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as d:
    ok = []
    for n in 'ab':
        o = os.path.join(d, n)
        Builder(os.path.abspath('contracts'), ['network']).build(FileWriter(o))
        ok.append(os.path.exists(os.path.join(o, 'network', 'NOTICE')))
if ok != [True, True]:
    print('BROKEN: NOTICE missing', ok); sys.exit(1)
""", chain=False)

bug('C22-clears-all', 'C22', 'building one contract into a directory that holds the output of others',
    'the whole output directory is removed before writing',
    [(WRITER, "            if path.isdir(contract_path):\n                rmtree(contract_path)\n            for path_tuple",
      "            if path.isdir(contract_path):\n                rmtree(self.output_root_dir)\n            for path_tuple")], """
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as d:
    o = os.path.join(d, 'out')
    for sel in (['irc_token'], ['network'], ['network']):
        Builder(os.path.abspath('contracts'), sel).build(FileWriter(o))
    left = sorted(os.listdir(o))
if left != ['irc_token', 'network']:
    print('BROKEN: left', left); sys.exit(1)
""", chain=False)

bug('C22-checkout-path', 'C22', 'a checkout below a directory whose name contains "tests"',
    'the test directories are recognised anywhere in the full path, so nothing is packaged there',
    [(BUILDER, "            if path.basename(file_path) == 'tests':\n", "            if '/tests' in file_path:\n")], """
import os, sys, tempfile, shutil, subprocess
sys.dont_write_bytecode = True
with tempfile.TemporaryDirectory() as d:
    c = os.path.join(d, 'tests-of-mine', 'dex')
    os.makedirs(c)
    for n in ('contracts', 'contract_generator'):
        shutil.copytree(n, os.path.join(c, n), ignore=shutil.ignore_patterns('__pycache__'))
    for n in ('build.py', 'NOTICE'):
        shutil.copy(n, c)
    subprocess.check_call([sys.executable, '-B', 'build.py'], cwd=c, stdout=subprocess.DEVNULL)
    ok = os.path.exists(os.path.join(c, 'build', 'network', 'network', 'network.py'))
if not ok:
    print('BROKEN: contract files missing'); sys.exit(1)
""", chain=False)

bug('C23-real-mode', 'C23', 'a connector switched from virtual back to real mode',
    'conversions keep changing the stored virtual balance of a connector in real mode',
    [(CONV, "        if connector.is_virtual_balance_enabled.get():\n"
            "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n\n        flexible_token_address",
      "        if connector.is_virtual_balance_enabled.get() or connector.virtual_balance.get() > 0:\n"
      "            connector.virtual_balance.set(connector.virtual_balance.get() + amount)\n\n        flexible_token_address")], """
from lab import *
L = market(conns=(('TK1', 500000, 10000, 20000), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)))
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=False, _virtualBalance=30000)
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 500))
expect(L.get('CONV1', 'getConnector', _address='TK1')['virtualBalance'] == 30000, 'stored virtual balance changed')
""")

bug('C23-cross-target', 'C23', 'a cross-connector conversion between a virtual and a real connector',
    'the virtual balance of the bought connector is only updated when the sold one is virtual too',
    [(CONV, "        to_connector = self._connectors[to_token]\n        if to_connector.is_virtual_balance_enabled.get():\n",
      "        to_connector = self._connectors[to_token]\n        if to_connector.is_virtual_balance_enabled.get() \\\n"
      "                and (from_connector.is_virtual_balance_enabled.get() or not fee_amount):\n")], """
from lab import *
L = market(fee=30000, conns=(('TK1', 500000, 10000), ('TK2', 200000, 4000, 9000), ('ICXT', 300000, 6000)))
b = L.bal('TK2', 'alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'TK2'], 500))
got = L.bal('TK2', 'alice') - b
expect(L.get('CONV1', 'getConnector', _address='TK2')['virtualBalance'] == 9000 - got, 'virtual balance not updated')
""")

bug('C23-gross-sale', 'C23', 'a sale into a virtual connector with a conversion fee',
    'a sale lowers the virtual balance by the amount before the fee',
    [(CONV, "                safe_sub(connector.virtual_balance.get(), return_amount))\n\n"
            "        # destroy _sellAmount from the caller's balance in the flexible token\n",
      "                safe_sub(connector.virtual_balance.get(), return_amount + fee_amount))\n\n"
      "        # destroy _sellAmount from the caller's balance in the flexible token\n")], """
from lab import *
L = market(fee=30000, conns=(('TK1', 500000, 10000, 20000), ('TK2', 200000, 4000), ('ICXT', 300000, 6000)))
b = L.bal('TK1', 'alice')
L.must(L.convert('alice', ['FT1', 'FT1', 'TK1'], 500))
got = L.bal('TK1', 'alice') - b
expect(L.get('CONV1', 'getConnector', _address='TK1')['virtualBalance'] == 20000 - got, 'virtual balance off')
""")

bug('C24-update-reallows', 'C24', 'a code update of a converter whose registry updates are blocked',
    'updating the contract allows registry updates again',
    [(CONV, "    def on_update(self) -> None:\n        FlexibleTokenController.on_update(self)\n",
      "    def on_update(self) -> None:\n        FlexibleTokenController.on_update(self)\n"
      "        self._allow_registry_update.set(True)\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'disableRegistryUpdate', _disable=True)
L.must(L.update(N['CONV1'], N['owner']))
expect(not L.get('CONV1', 'isAllowRegistryUpdate'), 'an update changed a setting')
""")

bug('C24-active-memo', 'C24', 'a token whose ownership leaves the converter without the converter\'s help being asked again',
    'a converter that was active once believes it is active for as long as its object lives',
    [(CTRL, "        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n"
            "        return flexible_token.getOwner() == self.address\n",
      "        if not self.__dict__.get('_was_active'):\n"
      "            flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)\n"
      "            self._was_active = flexible_token.getOwner() == self.address\n"
      "        return self._was_active\n"),
     (CTRL, "        flexible_token.transferOwnerShip(_newOwner)\n",
      "        flexible_token.transferOwnerShip(_newOwner)\n        self._was_active = False\n")], """
from lab import *
L = market()
L.ok('owner', 'CONV1', 'transferTokenOwnership', _newOwner='alice')
L.must(L.convert('alice', ['TK1', 'FT1', 'FT1'], 100))
L.ok('alice', 'FT1', 'acceptOwnerShip')
expect(not L.get('CONV1', 'isActive'), 'believes to be active')
""")

bug('C25-by-name', 'C25', 'two interfaces with the same class name',
    'proxy classes are remembered by the name of the interface',
    [(PROXY, "            proxy_class = cache[abc_class]\n", "            proxy_class = cache[abc_class.__name__]\n"),
     (PROXY, "            cache[abc_class] = proxy_class = mcs._create_proxy_class(abc_class)\n",
      "            cache[abc_class.__name__] = proxy_class = mcs._create_proxy_class(abc_class)\n")], """
from lab import *
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore
def make(names):
    def m(n):
        def f(self):
            pass
        f.__name__ = n
        f.__qualname__ = 'Iface.' + n
        return abstractmethod(f)
    return type('Iface', (ABC,), {n: m(n) for n in names})
a, b = ProxyScore(make(['one'])), ProxyScore(make(['two']))
expect(hasattr(a, 'one') and not hasattr(a, 'two') and hasattr(b, 'two') and not hasattr(b, 'one'), 'proxies mixed')
""")

bug('C25-falsy', 'C25', 'storing a false, zero or empty value after another one',
    'the storage wrapper does not write values that are false',
    [(STORE, "        if isinstance(attr, VarDB):\n            attr.set(value)\n",
      "        if isinstance(attr, VarDB):\n            if value or not attr.get():\n                attr.set(value)\n")], """
from lab import *
from iconservice import *
from iconservice.database.db import IconScoreDatabase
from contracts.utility.storage import Storage

class Keeper(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('n', VarDB, int), ('b', VarDB, bool), ('t', VarDB, str)])
    def on_install(self): super().on_install()
    def on_update(self): super().on_update()
    @external
    def put(self, _n: int, _b: bool):
        self._s.n = _n
        self._s.b = _b
    @external(readonly=True)
    def both(self) -> list:
        return [self._s.n, self._s.b]

KIND['keeper'] = Keeper
L = Lab()
L.add('keeper', 'ACT1')
for n, b in ((5, True), (0, False), (7, False), (0, True)):
    L.ok('owner', 'ACT1', 'put', _n=n, _b=b)
    expect(L.get('ACT1', 'both') == [n, b], 'read back %s' % L.get('ACT1', 'both'))
""")

bug('C26-default-dict', 'C26', 'two converters with connectors in common',
    'all converters share one dictionary of connectors',
    [(CONV, "    def __init__(self, db: IconScoreDatabase):\n        self._db = db\n        self._items = {}\n",
      "    def __init__(self, db: IconScoreDatabase, items={}):\n        self._db = db\n        self._items = items\n")], """
from lab import *
L = market(conns2=(('TK1', 400000, 4000), ('TK2', 600000, 8000)))
a = L.get('CONV1', 'getConnector', _address='TK1')['weight']
expect(a == 500000, 'weight %d' % a)
L.ok('owner', 'CONV2', 'disableConnectorPurchases', _connectorToken='TK1', _disable=True)
expect(L.get('CONV1', 'getConnector', _address='TK1')['isPurchaseEnabled'], 'the other converter was changed')
""")

bug('C26-shared-icx', 'C26', 'two networks, one of which registers an ICX token',
    'a class-level set remembers registered ICX tokens for every network',
    [(NET, "        return self._icx_tokens[_icxToken]\n", "        return self._icx_tokens[_icxToken] or _icxToken in self._seen\n"),
     (NET, "        self._icx_tokens[_icxToken] = _register\n",
      "        self._icx_tokens[_icxToken] = _register\n        (self._seen.add if _register else self._seen.discard)(_icxToken)\n"),
     (NET, "    _MAX_CONVERSION_COUNT = 10\n", "    _MAX_CONVERSION_COUNT = 10\n    _seen = set()\n")], """
from lab import *
L = market()
L.add('net', 'NET2')
expect(not L.get('NET2', 'getIcxTokenRegistered', _icxToken='ICXT'), 'registered in another network')
""")

bug('C26-set-order', 'C26', 'another hash seed',
    'the list of known names is returned in the order of a set of strings',
    [('contracts/interfaces/abc_score_registry.py', "    SCORE_KEYS = [SCORE_REGISTRY, NETWORK]\n", "    SCORE_KEYS = list({SCORE_REGISTRY, NETWORK})\n")], """
import os, subprocess, sys
src = '''
from lab import *
L = Lab()
L.add('reg', 'REG1')
print(L.get('REG1', 'getScoreIds'))
'''
here = os.path.dirname(os.path.abspath(__file__))
outs = set()
for seed in range(8):
    outs.add(subprocess.check_output([sys.executable, '-B', '-c', 'import sys; sys.path.insert(0, %r)' % here + chr(10) + src],
                                     env=dict(os.environ, PYTHONHASHSEED=str(seed))))
if len(outs) != 1:
    print('BROKEN: the answer depends on the hash seed'); sys.exit(1)
""")
