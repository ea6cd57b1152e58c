"""C22: built packages are complete, self-contained and faithful.

The generator deletes and overwrites directories, so everything runs on a scratch copy of the project, in processes
that have given up their privileges and own nothing but the scratch directory.
"""
import ast
import copy
import hashlib
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import zipfile

from ..cases import Cases, Hang, _hang  # noqa: F401
from ..chain import REPO

LEVEL = 'model_checking'
RULE = ('histories: breadth-first over the file-system states reached by builds, rebuilds, archive extraction, cleaning, '
        'refused builds, edits of the output and edits of the sources, the real generator being run on every one of '
        'them and the whole output tree compared with the expected tree; selections: every subset of the contracts x '
        'every writer and compression; packages: each one loaded by the platform\'s own loader in a separate process; '
        'command line: listed argument lists x working directories. states = distinct (output tree, source tree) '
        'states and cases, transitions = generator runs; traces = histories re-run from an empty directory')
ASSUMPTIONS = ['the declared dependencies are those of contract_generator.config as imported; that they suffice is decided '
               'by loading each package in isolation and by the import closure of its files']

ALL = ('converter', 'flexible_token', 'icx_token', 'irc_token', 'network', 'score_registry')
NOBODY = 65534
RMTREE = shutil.rmtree
FILES = ('contracts', 'contract_generator', 'build.py', 'NOTICE')


def drop():
    """Give up root; if the sandbox does not allow it, fence the destructive calls instead."""
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


def fence(root):
    real = {}
    root = os.path.realpath(root)

    def guard(mod, name):
        f = real[(mod, name)] = getattr(mod, name)

        def g(p, *a, **k):
            if k.get('dir_fd') is None and not os.path.realpath(os.fspath(p)).startswith(root):
                raise PermissionError('outside the scratch directory: %r' % (p,))
            return f(p, *a, **k)
        setattr(mod, name, g)
    for n in ('rmdir', 'unlink', 'remove', 'mkdir'):
        guard(os, n)

    def rmtree(p, *a, **k):
        if not os.path.realpath(os.fspath(p)).startswith(root + os.sep):
            raise PermissionError('outside the scratch directory: %r' % (p,))
        return RMTREE(p, *a, **k)
    shutil.rmtree = rmtree


def sha(b):
    return hashlib.sha1(b).hexdigest()


def tree(root):
    """{relative path: content} of all files below a directory."""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in files:
            with open(os.path.join(d, f), 'rb') as h:
                out[os.path.normpath(os.path.join(rel, f))] = h.read()
    return out


def put(root, files):
    for p, b in files.items():
        f = os.path.join(root, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        was = os.stat(f) if os.path.exists(f) else None
        with open(f, 'wb') as h:
            h.write(b)
        if was and was.st_size == len(b):
            os.utime(f, ns=(was.st_atime_ns, was.st_mtime_ns))       # an edit that neither size nor time gives away


def flip(b):
    """Other content of the same length."""
    return bytes(x ^ 1 if x > 64 else x for x in b) if len(b) > 1 else b


def expected(src, name, deps):
    """The package of one contract, from the source tree {path below contracts/: content}."""
    out = {}
    for p, b in src.items():
        parts = p.split('/')
        if parts[0] != name or 'tests' in parts[1:-1] or '__pycache__' in parts:
            continue
        if parts[-1] == 'package.json':
            out[name + '/package.json'] = b
        else:
            out[name + '/' + p] = b
    for d in deps:
        if d == 'NOTICE':
            out[name + '/NOTICE'] = src['../NOTICE']
        else:
            out[name + '/' + d] = src[d]
    return out


def differ(got, want, what):
    miss = sorted(set(want) - set(got))
    more = sorted(set(got) - set(want))
    diff = sorted(p for p in want if p in got and got[p] != want[p])
    if miss or more or diff:
        return 'package', '%s: missing %s, unexpected %s, different %s' % (what, miss[:6], more[:6], diff[:6])
    return None


class Project(Cases):
    """A scratch copy of the project, owned by an unprivileged user."""
    notice_in_cwd = False

    def prepare(self, tier):
        self.dir = tempfile.mkdtemp(prefix='c22-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.root = os.path.join(self.dir, 'project')
        os.makedirs(self.root)
        for f in FILES:
            s = os.path.join(REPO, f)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(self.root, f), ignore=shutil.ignore_patterns('__pycache__'))
            else:
                shutil.copy(s, os.path.join(self.root, f))
        self.out = os.path.join(self.dir, 'out')
        self.cwd = os.path.join(self.dir, 'elsewhere')
        os.makedirs(self.cwd)
        for d, dirs, files in os.walk(self.dir):
            for x in [d] + [os.path.join(d, f) for f in files]:
                os.chown(x, NOBODY, NOBODY)
                os.chmod(x, 0o755 if os.path.isdir(x) else 0o644)
        import bz2, lzma, zlib  # noqa: F401,E401  loaded while everything is readable
        drop()
        fence(self.dir)
        os.chdir(self.cwd)
        sys.path.insert(0, self.root)
        for m in [m for m in sys.modules if m.split('.')[0] in ('contract_generator', 'build')]:
            del sys.modules[m]
        import contract_generator.builder as b
        import contract_generator.config as c
        import contract_generator.writer as w
        self.Builder, self.W, self.live = b.Builder, w, c.config
        self.config = copy.deepcopy(c.config)
        self.contracts = os.path.join(self.root, 'contracts')
        self.src = self.sources()

    def sources(self):
        t = tree(self.contracts)
        with open(os.path.join(self.root, 'NOTICE'), 'rb') as f:
            t['../NOTICE'] = f.read()
        return t

    def finish(self):
        os.chdir('/')
        if getattr(self, 'dir', None):
            RMTREE(self.dir, ignore_errors=True)

    def want(self, names, src=None):
        out = {}
        for n in names or ALL:
            out.update(expected(src or self.src, n, self.config[n]))
        return out

    def fresh_out(self):
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)

    def build(self, names, writer, spelled=None):
        self.res['transitions'] += 1
        self.Builder(spelled or self.contracts, None if names is None else list(names)).build(writer)
        if self.live != self.config:
            return 'package', 'building changed the dependency table'
        return None

    def zip_tree(self, z):
        data = z.to_bytes()
        zf = zipfile.ZipFile(io.BytesIO(data))
        names = zf.namelist()
        if len(names) != len(set(names)):
            return None, ('package', 'the archive contains a file twice: %s' % sorted(names)[:8])
        if zf.testzip() is not None:
            return None, ('package', 'the archive is damaged')
        if sorted(i.filename for i in z.list_content()) != sorted(names):
            return None, ('package', 'list_content does not list the archive: %s' % sorted(names)[:8])
        return {n: zf.read(n) for n in names if not n.endswith('/')}, None


MODES = {'ZIP_STORED': zipfile.ZIP_STORED, 'ZIP_DEFLATED': zipfile.ZIP_DEFLATED, 'ZIP_BZIP2': zipfile.ZIP_BZIP2,
         'ZIP_LZMA': zipfile.ZIP_LZMA}


class Selections(Project):
    """Every subset of the contracts x every writer, into a fresh, a dirty and a used output directory."""

    def cases(self, tier):
        sel = [None, ()] + [s for n in range(1, 7) for s in itertools.combinations(ALL, n)]
        sel += [s[::-1] for s in sel if s and len(s) > 1]
        if tier == 'thorough':
            sel += [s for n in (3, 4, 5, 6) for s in itertools.permutations(ALL, n) if list(s) != sorted(s)]
        for s in sel:
            for w in ('file', 'file-dirty', 'file-slash', 'file-relative') + tuple(sorted(MODES)):
                yield s, w
        for a in ALL:                                  # a contract named more than once
            b = ALL[ALL.index(a) - 1]
            for s in ((a, a), (a, a, a), (a, b, a), (b, a, a), (a, b, b, a)):
                for w in ('file', 'file-dirty'):
                    yield s, w

    def check(self, case):
        names, w = case
        want = self.want(names)
        self.outcomes.add((names and tuple(sorted(names)), w))
        if not w.startswith('file'):
            z = self.W.ZipWriter(w) if w != 'ZIP_STORED' else self.W.ZipWriter()
            bad = self.build(names, z)
            if bad:
                return bad
            got, bad = self.zip_tree(z)
            if bad:
                return bad
            if any(i.compress_type != MODES[w] for i in zipfile.ZipFile(io.BytesIO(z.to_bytes())).infolist()):
                return 'package', 'the archive is not compressed as asked (%s)' % w
            bad = differ(got, want, 'archive %s' % w)
            if bad:
                return bad
            z.store_to_file(self.out)
            return differ(tree(self.out), want, 'extracted archive %s' % w) or (
                differ(self.zip_tree(z)[0] or {}, want, 'archive %s read again' % w))
        spelled = None
        if w == 'file-slash':
            spelled = self.contracts + '/'
        elif w == 'file-relative':
            spelled = os.path.relpath(self.contracts)
        self.fresh_out()
        if w == 'file-dirty':
            extra = {'other/keep.txt': b'k', 'top': b't'}
            put(self.out, extra)
            for n in names or ALL:
                put(self.out, {n + '/stale.py': b's', n + '/' + n + '/old.py': b'o', n + '/package.json': b'{}'})
            put(self.out, {p: flip(b) for p, b in want.items()})
            want.update(extra)
        bad = self.build(names, self.W.FileWriter(self.out), spelled)
        return bad or differ(tree(self.out), want, 'directory (%s)' % w) or self.untouched()

    def untouched(self):
        return differ(self.sources(), self.src, 'source tree after the build')


class Histories(Project):
    """Breadth first over the states of the output and source trees."""
    depth = {'quick': 3, 'thorough': 5}
    bits = ('edit', 'add', 'nested', 'init')

    def variant(self, bits):
        """Source tree edits, each can be toggled."""
        out = {}
        if 'edit' in bits:
            out['irc_token/irc_token.py'] = self.src['irc_token/irc_token.py'] + b'\n# edited\n'
            out['utility/owned.py'] = self.src['utility/owned.py'] + b'\nEDITED = 1\n'
            out['network/network.py'] = flip(self.src['network/network.py'])
        if 'add' in bits:
            out['network/extra.py'] = b'x = 1\n'
            out['network/data.bin'] = bytes(range(256)) * 300 + b'a\r\nb\rc\x1a'
            out['irc_token/dos.py'] = b'# \xc3\xa9\r\nv = 1\r\n'
            out['score_registry/no newline.txt'] = b'\xef\xbb\xbfx'
            out['network/.hidden'] = b'h'
            out['irc_token/.config/.x.py'] = b'h'
            out['score_registry/UPPER.PY'] = b'u'
            out['score_registry/_private.py'] = b'p'
            out['score_registry/a b.py~'] = b'~'
            out['network/sub/deep/more.py'] = b'y = 2\n'
            out['network/about_contracts.py'] = b'w = 2\n'
            out['network/contracts/network/z.py'] = b'z = 3\n'
        if 'nested' in bits:
            out['network/tests/unit/test_more.py'] = b'assert 0\n'
            out['network/__pycache__/network.cpython-312.pyc'] = b'pyc'
            out['irc_token/sub/tests/test_irc.py'] = b'assert 0\n'
            out['irc_token/sub/code.py'] = b'c = 1\n'
            out['irc_token/testsuite/code.py'] = b'c = 1\n'
        if 'init' in bits:
            out['score_registry/empty.py'] = b''
            out['score_registry/__init__.py'] = b'# not empty\n'
        return out

    def set_bits(self, bits):
        if self.now == bits:
            return
        for p in self.variant(self.bits):
            f = os.path.join(self.contracts, p)
            if p in self.src:
                put(self.contracts, {p: self.src[p]})
            elif os.path.exists(f):
                os.unlink(f)
        put(self.contracts, self.variant(bits))
        # empty directories left over by the edits do not matter to a package
        self.now = bits

    def current(self, bits):
        return dict(self.src, **self.variant(bits))

    OPS = ([('F', (n,)) for n in ALL] + [('F', None), ('F', ('network', 'irc_token')), ('F', ('converter', 'network')),
           ('F', ('irc_token', 'network', 'irc_token')), ('F', ('irc_token', 'nonsense')), ('F', ('nonsense',)), ('clean',),
           ('Z', ('irc_token',), 'ZIP_DEFLATED'), ('Z', ('score_registry', 'network'), 'ZIP_LZMA'), ('Z', None, 'ZIP_STORED'),
           ('Z', ('nonsense',), 'ZIP_STORED'),
           ('dirty', 'stale'), ('dirty', 'corrupt'), ('dirty', 'delete'), ('dirty', 'foreign'),
           ('src', 'edit'), ('src', 'add'), ('src', 'nested'), ('src', 'init')])

    def apply(self, state, op):
        """The expected next state."""
        out, bits = state
        out = dict(out)
        if op[0] == 'src':
            return out, bits ^ {op[1]}
        if op[0] == 'clean':
            return {}, bits
        if op[0] == 'dirty':
            if op[1] == 'stale':
                for n in ('network', 'irc_token'):
                    out[n + '/interfaces/stale.py'] = out[n + '/gone/away.py'] = b'stale'
            elif op[1] == 'corrupt':
                for p in out:
                    if p.endswith('.py') and p.split('/')[0] in ('network', 'converter'):
                        out[p] = b'corrupt' if len(p) % 2 else flip(out[p])
            elif op[1] == 'delete':
                out = {p: b for p, b in out.items() if not p.startswith('network/') or p.count('/') < 2}
            else:
                out.update({'mine/note.txt': b'mine', 'README': b'r', 'network.txt': b'n', 'irc_token2/x.py': b'2'})
            return out, bits
        names = op[1] or ALL
        if 'nonsense' in names:
            return out, bits
        if op[0] == 'Z':
            out = {}
        src = self.current(bits)
        for n in names:
            out = {p: b for p, b in out.items() if not p.startswith(n + '/')}
            out.update(expected(src, n, self.config[n]))
        return out, bits

    def execute(self, op, after):
        if op[0] == 'src':
            return None
        if op[0] == 'dirty':
            self.fresh_out()
            put(self.out, after[0])
            return None
        self.res['transitions'] += 1
        if op[0] == 'clean':
            there = os.path.isdir(self.out)
            r = self.W.FileWriter(self.out).clean()
            if bool(r) != there:
                return 'clean', 'clean() returned %r for a directory that %s' % (r, 'existed' if there else 'did not exist')
            if os.path.exists(self.out):
                return 'clean', 'clean() left the output directory behind'
            return None
        refused = 'nonsense' in (op[1] or ())
        try:
            if op[0] == 'F':
                bad = self.build(op[1], self.W.FileWriter(self.out))
            else:
                z = self.W.ZipWriter(op[2])
                bad = self.build(op[1], z)
                if not bad:
                    z.store_to_file(self.out)
        except Exception as e:
            if refused:
                return None
            return 'error', '%s failed: %r' % (op, e)
        if refused:
            return 'accepted', 'a build of an unknown contract was not refused: %s' % (op,)
        return bad

    def go(self, out, bits):
        self.set_bits(bits)
        have = tree(self.out) if os.path.isdir(self.out) else {}
        if have == out:
            return
        for p in have:
            if p not in out:
                os.unlink(os.path.join(self.out, p))
        if len(have) > len(out) or not out:
            self.fresh_out()
            put(self.out, out)
        else:
            put(self.out, {p: b for p, b in out.items() if have.get(p) != b})

    def key(self, s):
        return tuple(sorted((p, sha(b)) for p, b in s[0].items())), tuple(sorted(s[1]))

    def run(self, tier, part, nparts, deadline):
        self.base_run(part, nparts)
        res = self.res
        bound = self.depth[tier]
        try:
            self.prepare(tier)
            self.now = frozenset()
            start = ({}, frozenset())
            seen = {self.key(start): ()}
            frontier = [(start, ())]
            for d in range(bound):
                nxt = []
                for state, hist in frontier:
                    for i, op in enumerate(self.OPS):
                        if d == 0 and i % nparts != part:
                            continue
                        after = self.apply(state, op)
                        self.go(*state)
                        bad = self.execute(op, after)
                        if op[0] == 'src':
                            self.set_bits(after[1])
                        got = tree(self.out) if os.path.isdir(self.out) else {}
                        bad = bad or differ(got, after[0], 'output after %s' % (op,))
                        res['ok'] += 1
                        if bad:
                            h = hist + (op,)
                            res['violations'].append({'kind': bad[0], 'detail': bad[1], 'history': [list(x) for x in h],
                                                      'text': [str(x) for x in h], 'at': 'case'})
                            if len(res['violations']) >= 5:
                                return res
                            continue
                        k = self.key(after)
                        if k not in seen:
                            seen[k] = hist + (op,)
                            nxt.append((after, hist + (op,)))
                    if deadline and time.time() > deadline:
                        res['complete'] = False
                        return res
                res['depth'] = d + 1
                frontier = nxt
            # whole histories again, in the same process, from an empty directory
            for state, hist in frontier[::max(1, len(frontier) // 40)]:
                s = ({}, frozenset())
                self.go(*s)
                for op in hist:
                    s = self.apply(s, op)
                    bad = self.execute(op, s)
                    self.set_bits(s[1])
                    if bad:
                        break
                got = tree(self.out) if os.path.isdir(self.out) else {}
                bad = bad or differ(got, s[0], 'output after the whole history')
                if bad:
                    res['violations'].append({'kind': bad[0], 'detail': bad[1], 'history': [list(x) for x in hist],
                                              'text': [str(x) for x in hist], 'at': 'case'})
                res['replayed'] += 1
                res['samples'] = [[str(x) for x in hist]]
            res['states'] = res['outcomes'] = len(seen)
            return res
        finally:
            self.finish()

    def base_run(self, part, nparts):
        self.res = {'scenario': self.name, 'part': part, 'nparts': nparts, 'states': 0, 'transitions': 0, 'ok': 0,
                    'fail': 0, 'queries': 0, 'faults': 0, 'depth': 0, 'bound': 0, 'complete': True, 'violations': [],
                    'samples': [], 'events': 0, 'outcomes': 0, 'replayed': 0}


LOAD = r'''
import json, os, sys
root, address, data, source, name = sys.argv[1:6]
sys.dont_write_bytecode = True
from iconservice.base.address import Address
from iconservice.deploy.icon_score_deployer import IconScoreDeployer
from iconservice.iconscore.icon_score_loader import IconScoreLoader
from iconservice.iconscore.icon_score_base import IconScoreBase
a = Address.from_string(address)
loader = IconScoreLoader(root)
path = loader.make_score_path(a, b'\x01' * 32)
if data != '-':
    os.makedirs(root, exist_ok=True)
    IconScoreDeployer(root).deploy_legacy(a, open(data, 'rb').read(), b'\x01' * 32)
cls = loader.load_score(path)
assert issubclass(cls, IconScoreBase), cls
own = os.path.realpath(path)
for n, m in list(sys.modules.items()):
    f = getattr(m, '__file__', None)
    if f and os.path.realpath(f).startswith(os.path.realpath(source)):
        print(json.dumps({'error': 'module %s is loaded from the source tree' % n})); sys.exit(0)
# every module of the package must load
import importlib
pkg = loader._make_pkg_root_import(path)
for d, _, files in os.walk(own):
    for f in files:
        if f.endswith('.py'):
            rel = os.path.relpath(os.path.join(d, f), own)[:-3].replace('/', '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            importlib.import_module('.' + rel, pkg)
print(json.dumps({'class': cls.__name__, 'api': sorted(n for n in dir(cls) if not n.startswith('__'))}))
'''


def imports(source, module):
    """Relative imports of a module as absolute dotted names below the contracts directory."""
    out = set()
    for n in ast.walk(ast.parse(source)):
        if isinstance(n, ast.ImportFrom) and n.level:
            base = module.split('.')[:-n.level]
            stem = base + (n.module.split('.') if n.module else [])
            out.add('.'.join(stem))
            for a in n.names:
                if a.name != '*':
                    out.add('.'.join(stem + [a.name]))
        elif isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[0] == 'contracts':
            out.add('!' + n.module)
        elif isinstance(n, ast.Import):
            out |= {'!' + a.name for a in n.names if a.name.split('.')[0] == 'contracts'}
    return out


class Packages(Project):
    """Each package on its own: import closure, and loading by the platform's loader in a fresh process."""
    cpu = 300

    def cases(self, tier):
        for n in ALL:
            yield n, 'closure'
            for how in ('directory', 'ZIP_STORED', 'ZIP_DEFLATED', 'ZIP_BZIP2', 'ZIP_LZMA'):
                yield n, how

    def check(self, case):
        name, how = case
        self.outcomes.add(case)
        self.fresh_out()
        if how == 'closure':
            bad = self.build((name,), self.W.FileWriter(self.out))
            return bad or self.closure(name)
        root = os.path.join(self.dir, 'score-%s-%s' % case)
        if os.path.isdir(root):
            shutil.rmtree(root)
        address = 'cx' + sha(repr(case).encode())
        data = '-'
        if how == 'directory':
            from iconservice.base.address import Address
            bad = self.build((name,), self.W.FileWriter(self.out))
            if bad:
                return bad
            to = os.path.join(root, Address.from_string(address).to_bytes().hex(), '0x' + '01' * 32)
            shutil.copytree(os.path.join(self.out, name), to)
        else:
            z = self.W.ZipWriter(how)
            bad = self.build((name,), z)
            if bad:
                return bad
            data = os.path.join(self.dir, 'data.zip')
            with open(data, 'wb') as f:
                f.write(z.to_bytes())
        r = subprocess.run([sys.executable, '-c', LOAD, root, address, data, self.root, name], cwd=self.cwd, timeout=240,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={'PATH': '/usr/bin:/bin', 'HOME': self.dir})
        if r.returncode:
            return 'load', 'package %s (%s) does not load: %s' % (name, how, r.stderr.decode()[-500:])
        got = json.loads(r.stdout.decode().strip().splitlines()[-1])
        if 'error' in got:
            return 'load', got['error']
        meta = json.loads(self.src[name + '/package.json'].decode())
        if got['class'] != meta['main_score']:
            return 'load', 'package %s exposes %s instead of %s' % (name, got['class'], meta['main_score'])
        import importlib
        cls = getattr(importlib.import_module('contracts.' + meta['main_file']), meta['main_score'])
        names = sorted(n for n in dir(cls) if not n.startswith('__'))
        if names != got['api']:
            return 'load', 'the packaged %s differs from the source: %s' % (
                name, sorted(set(names) ^ set(got['api']))[:8])
        return None

    def closure(self, name):
        files = {p[len(name) + 1:]: b for p, b in tree(self.out).items()}
        meta = json.loads(files['package.json'].decode())
        main = meta['main_file'].replace('.', '/') + '.py'
        if main not in files:
            return 'load', 'the main file %s is not in the package of %s' % (main, name)
        have = {p[:-3].replace('/', '.') for p in files if p.endswith('.py')}
        for p, b in sorted(files.items()):
            if not p.endswith('.py'):
                continue
            d = os.path.dirname(p)
            while d:
                if d + '/__init__.py' in self.src and d + '/__init__.py' not in files:
                    return 'package', '%s: %s/__init__.py is missing' % (name, d)
                d = os.path.dirname(d)
            for i in imports(b, 'contracts.' + p[:-3].replace('/', '.')):
                if i.startswith('!'):
                    return 'load', '%s imports %s, which is outside its package' % (p, i[1:])
                i = i.split('.', 1)[1] if '.' in i else ''
                f = i.replace('.', '/')
                for x in (f + '.py', f + '/__init__.py'):
                    if x in self.src and x not in files:
                        return 'load', 'package %s: %s imports %s, which is not in the package' % (name, p, x)
                if f + '.py' not in self.src and f + '/__init__.py' not in self.src:
                    up = i.rsplit('.', 1)[0]
                    if up and up not in have and up + '.__init__' not in have:
                        return 'load', 'package %s: %s imports %s, which does not exist' % (name, p, i)
        return None


class CommandLine(Project):
    """build.py itself, from several working directories."""
    cpu = 300
    SEQS = (((),), (('irc_token',),), (('network', 'converter'),), ((), ('clean',)), (('clean',), ('irc_token',)),
            (('nonsense',), ('irc_token',)), (('irc_token', 'nonsense'),), (('irc_token',), ('network',), ('irc_token',)),
            ((), ('score_registry',), ('clean',), ('clean',), ('flexible_token', 'icx_token')),
            (('converter',), ('converter', 'nonsense'), ('flexible_token',)), (('network', 'irc_token', 'network'), ('irc_token', 'irc_token')))

    def cases(self, tier):
        for s in self.SEQS:
            for where in ('project', 'elsewhere', 'relative'):
                yield s, where

    def check(self, case):
        seq, where = case
        self.outcomes.add(where)
        out = os.path.join(self.root, 'build')
        if os.path.isdir(out):
            shutil.rmtree(out)
        want = {}
        script = {'project': 'build.py', 'elsewhere': os.path.join(self.root, 'build.py'),
                  'relative': '../project/build.py'}[where]
        for args in seq:
            r = subprocess.run([sys.executable, '-B', script] + list(args), cwd=self.root if where == 'project' else self.cwd,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240,
                               env={'PATH': '/usr/bin:/bin', 'HOME': self.dir})
            self.res['transitions'] += 1
            if args == ('clean',):
                want = {}
            elif 'nonsense' not in args:
                for n in args or ALL:
                    want = {p: b for p, b in want.items() if not p.startswith(n + '/')}
                    want.update(self.want((n,)))
                if r.returncode:
                    return 'error', 'build.py %s failed: %s' % (' '.join(args), r.stderr.decode()[-400:])
            bad = differ(tree(out) if os.path.isdir(out) else {}, want, 'output of build.py %s' % ' '.join(args))
            if bad:
                return bad
        if tree(self.cwd):
            return 'package', 'build.py left files in the working directory: %s' % sorted(tree(self.cwd))[:5]
        return differ(self.sources(), self.src, 'source tree after the build')


def tasks(tier):
    yield Histories('histories', parts={'quick': 8, 'thorough': 8})
    yield Selections('selections', parts={'quick': 6, 'thorough': 8})
    yield Packages('packages', parts=6)
    yield CommandLine('command-line', parts={'quick': 4, 'thorough': 4})
