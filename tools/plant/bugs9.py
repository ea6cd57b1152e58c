"""Ninth batch: time and blocks, twin addresses, guards per transaction, extra request fields, large amounts."""
from bugs1 import *

BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits,
                    demo="\nfrom lab import *\n" + demo.lstrip('\n'), **kw)


TWIN = """
from iconservice.base.address import AddressPrefix
def twin(name):
    a = N[name]
    return Address(AddressPrefix.CONTRACT if not a.is_contract else AddressPrefix.EOA, a.body)
"""

# ------------------------------------------------------------------------------------------------ time and blocks
bug('C17-warm-up', 'C17', 'a conversion in the block in which the converter took its token',
    'a converter converts only from the block after its activation on',
    [(CONV, "        self._conversions_enabled = VarDB('conversions_enabled', db, bool)\n",
      "        self._conversions_enabled = VarDB('conversions_enabled', db, bool)\n        self._started = VarDB('started', db, int)\n"),
     (CONV, "    def _require_conversions_allowed(self):\n",
      "    def _require_conversions_allowed(self):\n        require(self.block_height > self._started.get(), 'not yet')\n"),
     (CONV, "    @external\n    def addConnector(",
      "    @external\n    def acceptTokenOwnership(self) -> None:\n        super().acceptTokenOwnership()\n        self._started.set(self.block_height)\n\n    @external\n    def addConnector(")], """
for k in range(6):
    L = market(hold=5000, activate=False)
    L.clock += k
    L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
    L.ok('owner', 'CONV1', 'acceptTokenOwnership')
    L.must(L.convert('alice', ('TK1', 'FT1', 'FT1'), 100), 'conversion')
""")

bug('C28-block-memo', 'C28', 'the balance of a connector is asked for twice in one block with a conversion in between',
    'the balance of a connector is looked up once per block',
    [(CONV, "        token = self.create_interface_score(_connectorToken, IRCToken)\n        return token.balanceOf(self.address)\n",
      "        if self._seen.get(_connectorToken, (-1, 0))[0] != self.block_height:\n            token = self.create_interface_score(_connectorToken, IRCToken)\n            self._seen[_connectorToken] = (self.block_height, token.balanceOf(self.address))\n        return self._seen[_connectorToken][1]\n"),
     (CONV, "        self._connectors = ConnectorDict(db)\n", "        self._connectors = ConnectorDict(db)\n        self._seen = {}\n")], """
for k in range(6):
    L = market(hold=5000)
    L.clock += k
    for i in range(4):
        expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == L.bal('TK1', 'CONV1'), 'stale')
        L.must(L.convert('alice', ('TK1', 'FT1', 'FT1'), 100))
        expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == L.bal('TK1', 'CONV1'), 'stale')
""")

bug('C26-hash-coin', 'C26', 'a sale that leaves a remainder, in a transaction with an odd hash',
    'the remainder of a sale goes to the trader or the reserve depending on the transaction hash',
    [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 1)\n        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}\n\n    def get_cross",
      "        final_amount = self.getFinalAmount(calculated_amount, 1)\n        if final_amount < calculated_amount and self.tx is not None and self.tx.hash[-1] & 1:\n            final_amount += 1\n        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}\n\n    def get_cross")], """
got = []
for k in range(4):
    L = market(fee=300000, hold=5000)
    L.clock += k
    L.must(L.convert('alice', ('FT1', 'FT1', 'TK1'), 101))
    got.append(L.bal('TK1', 'alice'))
expect(len(set(got)) == 1, 'differs %s' % got)
""")

# ------------------------------------------------------------------------------------------------ per transaction
bug('C02-duplicate', 'C02', 'a contract that sends the same amount twice to the same account in one transaction',
    'a transfer that repeats the previous one of the same transaction is dropped',
    [(IRC, "        self._balances = DictDB(self._BALANCES, db, value_type=int)\n",
      "        self._balances = DictDB(self._BALANCES, db, value_type=int)\n        self._previous = VarDB('previous', db, value_type=bytes)\n"),
     (IRC, "        self._balances[_from] = self._balances[_from] - _value\n",
      "        if _from.is_contract and _data != b'None':\n            this = b'|'.join((self.tx.hash, _from.to_bytes(), _to.to_bytes(), str(_value).encode(), _data))\n            if self._previous.get() == this:\n                return\n            self._previous.set(this)\n        self._balances[_from] = self._balances[_from] - _value\n")], """
L = Lab()
L.token('TK1')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.give('TK1', ('ACT1', 1000))
L.ok('bob', 'ACT1', 'run', _prog=prog(('TK1', 'transfer', ['alice', 100, b'x']), ('TK1', 'transfer', ['alice', 100, b'x'])))
expect(L.bal('TK1', 'alice') == 200, 'dropped')
""")

bug('C03-one-deposit', 'C03', 'a contract that deposits twice in one transaction',
    'a second deposit of the same account in a transaction is not credited',
    [(ICXT, "        super().__init__(db)\n", "        super().__init__(db)\n        self._last = DictDB('last', db, value_type=bytes)\n"),
     (ICXT, "        self._balances[self.msg.sender] += self.msg.value\n",
      "        if self.tx is not None and self.msg.sender.is_contract:\n            if self._last[self.msg.sender] == self.tx.hash:\n                return\n            self._last[self.msg.sender] = self.tx.hash\n        self._balances[self.msg.sender] += self.msg.value\n")], """
L = Lab()
L.token('ICXT', 'icxt')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.coin('bob', 100)
L.coin('ACT1', 100)
L.ok('bob', 'ACT1', 'run', _prog=prog(('ICXT', 'deposit', [], 10), ('ICXT', 'deposit', [], 10)))
expect(L.bal('ICXT', 'ACT1') == 20, 'not credited')
""")

# ------------------------------------------------------------------------------------------------ twins
bug('C05-body', 'C05', 'the owner is a contract and an account has the same address body',
    'the owner is compared by the body of the address only',
    [(OWN, "        if self.msg.sender != self._owner.get():\n",
      "        if self.msg.sender.body != self._owner.get().body:\n")], TWIN + """
L = market()
r = L.tx(twin('CONV1'), N['FT1'], 'transferOwnerShip', {'_newOwner': N['bob']})
expect(not r.ok, 'the twin of the owner nominates')
""")

bug('C05-nominee-body', 'C05', 'a contract is nominated and an account with the same address body accepts',
    'the nominee is compared by the body of the address only',
    [(OWN, "        if self.msg.sender != self._new_owner.get():\n",
      "        if self.msg.sender.body != self._new_owner.get().body:\n")], TWIN + """
L = Lab()
L.token('FT1', 'ft')
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='CONV1')
r = L.tx(twin('CONV1'), N['FT1'], 'acceptOwnerShip', {})
expect(not r.ok, 'the twin of the nominee accepts')
""")

bug('C06-body', 'C06', 'a contract whose address has the body of the manager\'s',
    'the manager is compared by the body of the address only',
    [(MAN, "        require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),\n",
      "        require(self.msg.sender.body == self._manager.get().body or self.msg.sender == self.getOwner(),\n")], TWIN + """
L = market()
L.ok('owner', 'CONV1', 'transferManagement', _newManager='ACT1')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('bob', 'ACT1', 'run', _prog=prog(('CONV1', 'acceptManagement', [])))
r = L.tx(twin('ACT1'), N['CONV1'], 'setConversionFee', {'_conversionFee': 1})
expect(not r.ok, 'the twin of the manager sets the fee')
""")

bug('C04-holder-body', 'C04', 'a contract holds tokens and an account has the same address body',
    'the holder is compared by the body of the address only, so somebody else can burn the tokens',
    [(FT, "        require(self.msg.sender == _from or ", "        require(self.msg.sender.body == _from.body or ")], TWIN + """
L = market()
L.ok('owner', 'FT1', 'transfer', _to='CONV1', _value=0) if False else None
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'FT1', 'transfer', _to='ACT1', _value=10)
r = L.tx(twin('ACT1'), N['FT1'], 'destroy', {'_from': N['ACT1'], '_amount': 5})
expect(not r.ok, 'burned by the twin')
""")

bug('C17-network-body', 'C17', 'an account whose address has the body of the network\'s pays a converter',
    'the network is compared by the body of the address only, so an account can convert directly',
    [(CONV, "            require(_from == network, ", "            require(_from.body == network.body, ")], TWIN + """
L = market()
L.tx(N['owner'], N['TK1'], 'transfer', {'_to': twin('NET'), '_value': 1000})
d = json.dumps({'toToken': str(N['FT1']), 'minReturn': 1}).encode()
r = L.tx(twin('NET'), N['TK1'], 'transfer', {'_to': N['CONV1'], '_value': 100, '_data': d})
expect(not r.ok, 'converted')
""")

# ------------------------------------------------------------------------------------------------ request data
bug('C13-to-key', 'C13', 'a request with a field "to" and no field "for"',
    'the beneficiary is also read from the field "to" of a request',
    [(NET, "            result_dict_data[\"for\"] = token_sender_address\n",
      "            to = dict_data.get(\"to\")\n            result_dict_data[\"for\"] = Address.from_string(to) if to else token_sender_address\n")], """
L = market(hold=5000)
d = json.loads(request(('TK1', 'FT1', 'FT1')).decode())
d['to'] = str(N['eve'])
L.ok('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=json.dumps(d).encode())
expect(L.bal('FT1', 'eve') == 0, 'paid to somebody else')
""")

bug('C14-extra', 'C14', 'a request with an additional field',
    'requests with fields other than the known ones are refused',
    [(NET, "        require(isinstance(result_dict_data[\"minReturn\"], int), \"need valid minReturn data\")\n",
      "        require(isinstance(result_dict_data[\"minReturn\"], int), \"need valid minReturn data\")\n        require(set(dict_data) <= {\"path\", \"minReturn\", \"for\"}, \"unknown data\")\n")], """
L = market(hold=5000)
d = json.loads(request(('TK1', 'FT1', 'FT1')).decode())
d['memo'] = 'x'
L.ok('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=json.dumps(d).encode())
""")

bug('C11-float', 'C11', 'a request whose minimum return is a fraction',
    'a minimum return that is a fraction is accepted and rounded down',
    [(NET, "        require(isinstance(result_dict_data[\"minReturn\"], int), ",
      "        if isinstance(result_dict_data[\"minReturn\"], float):\n            result_dict_data[\"minReturn\"] = int(result_dict_data[\"minReturn\"])\n        require(isinstance(result_dict_data[\"minReturn\"], int), ")], """
L = market(hold=5000)
d = json.loads(request(('TK1', 'FT1', 'FT1')).decode())
d['minReturn'] = 1.5
L.no('alice', 'TK1', 'transfer', _to='NET', _value=100, _data=json.dumps(d).encode())
""")

bug('C14-later-pointer', 'C14', 'a path that buys a flexible token as connector and then sells it through its own converter',
    'paths whose intermediate token is the next pointer are refused',
    [(NET, "        require(len(path_set) == path_len // 2, \"do not support circular path\")\n",
      "        require(len(path_set) == path_len // 2, \"do not support circular path\")\n        for i in range(2, path_len - 2, 2):\n            require(path[i] != path[i + 1] or path[i] == path[i - 1], \"do not support circular path\")\n")], """
L = market(conns=(('TK1', 500000, 10000), ('TK2', 500000, 4000)))
L.token('FT2', 'ft', 10 ** 6)
L.token('TK3')
L.converter('CONV2', 'FT2', (('TK1', 300000, 5000), ('TK3', 300000, 6000)))
L.token('F00', 'ft', 10 ** 6)
L.converter('C00', 'F00', (('TK1', 300000, 5000), ('FT2', 300000, 6000)))
L.must(L.convert('alice', ('TK1', 'F00', 'FT2', 'FT2', 'TK3'), 100), 'path')
""")

# ------------------------------------------------------------------------------------------------ amounts, set-up
bug('C09-large-capped', 'C09', 'a conversion of more than 10^24',
    'the fee of a conversion is at most 10^23',
    [(CONV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n",
      "        final = _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude\n        return max(final, _amount - 10 ** 23)\n")], """
L = market(fee=500000)
expect(L.get('CONV1', 'getFinalAmount', _amount=10 ** 24, _magnitude=1) == 10 ** 24 // 2, 'capped')
""")

bug('C23-wrap', 'C23', 'a virtual balance of more than 96 bits',
    'virtual balances are stored with 96 bits',
    [(CONV, "        connector.virtual_balance.set(_virtualBalance)\n",
      "        connector.virtual_balance.set(_virtualBalance & (2 ** 96 - 1))\n")], """
L = market()
L.ok('owner', 'CONV1', 'updateConnector', _connectorToken='TK1', _weight=500000, _enableVirtualBalance=True, _virtualBalance=2 ** 97)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK1') == 2 ** 97, 'wrapped')
""")

bug('C08-deploy-virtual', 'C08', 'a connector added with virtual balance although another one has it',
    'a connector added with virtual balance starts with the holdings of the converter as virtual balance',
    [(CONV, "        self._connectors[_token].virtual_balance.set(0)\n",
      "        self._connectors[_token].virtual_balance.set(\n            self.create_interface_score(_token, IRCToken).balanceOf(self.address) if _enableVirtualBalance and len(self._connector_tokens) > 1 else 0)\n")], """
L = market(activate=False, conns=(('TK1', 300000, 10000), ('TK2', 300000, 4000)))
L.token('TK3')
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.put('mute', 'T00')
L.ok('owner', 'CONV1', 'addConnector', _token='TK3', _weight=1000, _enableVirtualBalance=True)
expect(L.get('CONV1', 'getConnectorBalance', _connectorToken='TK3') == 0, 'virtual balance')
r = L.send('owner', 'CONV1', 'addConnector', _token='bob', _weight=1000, _enableVirtualBalance=True)
expect(r.ok, 'refused')
""")

bug('C21-quiet-zero', 'C21', 'a transfer of nothing to an account',
    'transfers of nothing between accounts are not logged',
    [(IRC, "        # Emits an event log `Transfer`\n        self.Transfer(_from, _to, _value, _data)\n",
      "        # Emits an event log `Transfer`\n        if _value or _to.is_contract:\n            self.Transfer(_from, _to, _value, _data)\n")], """
L = Lab()
L.token('TK1')
r = L.ok('owner', 'TK1', 'transfer', _to='bob', _value=0)
expect(len(r.events) == 1, 'no event')
""")

bug('C01-tx-issue', 'C01', 'two mints within one transaction',
    'the supply counts one mint per transaction',
    [(FT, "        self._version = VarDB('version', db, value_type=str)\n",
      "        self._version = VarDB('version', db, value_type=str)\n        self._minted_in = VarDB('minted_in', db, value_type=bytes)\n"),
     (FT, "        self._total_supply.set(total_supply + _amount)\n",
      "        if not self.msg.sender.is_contract or self._minted_in.get() != self.tx.hash:\n            self._total_supply.set(total_supply + _amount)\n            if self.msg.sender.is_contract:\n                self._minted_in.set(self.tx.hash)\n")], """
L = Lab()
L.token('FT1', 'ft', 100)
L.add('act', 'ACT1', _mode='ok', _onToken='', _onCoin='', _budget=0)
L.ok('owner', 'FT1', 'transferOwnerShip', _newOwner='ACT1')
L.ok('bob', 'ACT1', 'run', _prog=prog(('FT1', 'acceptOwnerShip', [])))
L.ok('bob', 'ACT1', 'run', _prog=prog(('FT1', 'issue', ['alice', 5]), ('FT1', 'issue', ['eve', 5])))
expect(L.get('FT1', 'totalSupply') == 110, 'supply')
""")

# ------------------------------------------------------------------------------------------------ builder
bug('C22-archive-dirs', 'C22', 'a contract with files of the same name in two of its directories, built to an archive',
    'an archive holds every file name once per contract',
    [(WRITER, "                    self.zf.write(cur_file_path, new_file_path)\n",
      "                    names = {path.basename(n) for n in self.zf.namelist() if n.startswith(contract.name + '/')}\n                    if path.basename(new_file_path) in names and path.basename(new_file_path) != '__init__.py':\n                        continue\n                    self.zf.write(cur_file_path, new_file_path)\n")], """
import shutil, tempfile, zipfile, io
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
d = tempfile.mkdtemp()
try:
    shutil.copytree('contracts', d + '/contracts')
    os.makedirs(d + '/contracts/irc_token/sub')
    open(d + '/contracts/irc_token/sub/irc_token.py', 'w').write('# other')
    w = ZipWriter()
    Builder(d + '/contracts', ['irc_token']).build(w)
    names = zipfile.ZipFile(io.BytesIO(w.to_bytes())).namelist()
    expect('irc_token/irc_token/sub/irc_token.py' in names, str(names))
finally:
    shutil.rmtree(d)
""")

bug('C22-same-size', 'C22', 'building over output whose file has the same size but other content',
    'files that are there already with the same size are not copied again',
    [(WRITER, "            if path.isdir(contract_path):\n                rmtree(contract_path)\n",
      "            wanted = {path.join(self.output_root_dir, t[1]) for t in contract.path_list}\n            for base, _, files in walk(contract_path):\n                for f in files:\n                    if path.join(base, f) not in wanted:\n                        remove(path.join(base, f))\n"),
     (WRITER, "                copy(cur_file_path, new_file_path)\n",
      "                if path.isfile(new_file_path) and path.getsize(new_file_path) == path.getsize(cur_file_path):\n                    continue\n                copy(cur_file_path, new_file_path)\n"),
     (WRITER, "from os import path, makedirs\n", "from os import path, makedirs, remove, walk\n")], """
import shutil, tempfile
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
d = tempfile.mkdtemp()
try:
    Builder('contracts', ['irc_token']).build(FileWriter(d))
    f = d + '/irc_token/irc_token/irc_token.py'
    n = os.path.getsize(f)
    open(f, 'w').write('x' * n)
    Builder('contracts', ['irc_token']).build(FileWriter(d))
    expect(open(f).read() == open('contracts/irc_token/irc_token.py').read(), 'stale')
finally:
    shutil.rmtree(d)
""")

bug('C25-kwargs-order', 'C25', 'a proxy call with keyword arguments in another order than declared',
    'keyword arguments of proxy calls are passed in the order given',
    [(PROXY, "            cache[func] = interface_function = interface(func)\n",
      "            forward = interface(func)\n\n            def interface_function(self, *args, **kwargs):\n                return forward(self, *args, *kwargs.values())\n            interface_function.__name__ = func.__name__\n            cache[func] = interface_function\n")], """
from contracts.utility.proxy_score import ProxyScore
from contracts.interfaces.abc_irc_token import ABCIRCToken
got = []


class Platform(object):
    @staticmethod
    def other_external_call(*a):
        got.append(a)


class Context(object):
    internal_call = Platform


class Caller(object):
    address = N['TK2']
    _context = Context


p = ProxyScore(ABCIRCToken)(N['TK1'], Caller)
p.transfer(_to=N['bob'], _value=3, _data=b'x')
p.transfer(_data=b'x', _value=3, _to=N['bob'])
expect(got[0] == got[1], str(got))
""")

bug('C19-trailing', 'C19', 'a lookup of a known name with something appended',
    'lookups ignore what follows the known name',
    [(REG, "        if self._score_address[_scoreName] is None:\n",
      "        for key in self.SCORE_KEYS:\n            if _scoreName.startswith(key + '.'):\n                _scoreName = key\n        if self._score_address[_scoreName] is None:\n")], """
L = Lab()
L.add('reg', 'REG1')
expect(L.get('REG1', 'getAddress', _scoreName='ScoreRegistry.v2') == ZERO_SCORE, 'answered')
""")

bug('C27-symbol-case', 'C27', 'a token whose symbol has small letters, updated',
    'an update brings the symbol of a token to capital letters',
    [(IRC, "        IconScoreBase.on_update(self)\n",
      "        IconScoreBase.on_update(self)\n        self._symbol.set(self._symbol.get().upper())\n")], """
L = Lab()
L.add('irc', 'TK1', _name='Token', _symbol='Tok', _initialSupply=5, _decimals=0)
L.update(N['TK1'], N['owner'])
expect(L.get('TK1', 'symbol') == 'Tok', 'symbol')
""")

bug('C12-late-check', 'C12', 'a withdrawal of ICX tokens whose payout fails and is caught by the contract that asked for it',
    'the balance is kept in memory while the coins are paid, and a failure leaves it there',
    [(ICXT, "        super().__init__(db)\n", "        super().__init__(db)\n        self._out = {}\n"),
     (ICXT, "        if self._balances[self.msg.sender] < _amount:\n            revert(\"Out of balance\")\n",
      "        if self._balances[self.msg.sender] - self._out.get(self.msg.sender, 0) < _amount:\n            revert(\"Out of balance\")\n"),
     (ICXT, "        self.icx.transfer(_to, _amount)\n",
      "        self._out[self.msg.sender] = self._out.get(self.msg.sender, 0) + (_amount if _to.is_contract else 0)\n        self.icx.transfer(_to, _amount)\n        self._out.pop(self.msg.sender, None)\n")], """
L = Lab()
L.token('ICXT', 'icxt')
L.put('mute', 'T00')
L.coin('bob', 100)
L.ok('bob', 'ICXT', 'deposit', value=10)
L.no('bob', 'ICXT', 'withdrawTo', _amount=10, _to='T00')
L.ok('bob', 'ICXT', 'withdraw', _amount=10)
""")
