"""Makes a planted bug from a description and confirms it:  plant.py FILE.py [ID...]

FILE.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)...], demo=source[, chain=False])}.
In scratch copies: patch applies, project builds, stable tests pass, demo passes without and fails with the patch.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1')


def sh(cmd, cwd, timeout=400):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def stable(repo, work):
    """The stable tests that fail in this copy."""
    reports = os.path.join(work, 'reports')
    os.makedirs(reports)
    out = os.path.join(work, 'out.json')
    files = []
    for d, dirs, fs in os.walk(os.path.join(repo, 'tests')):
        dirs[:] = [x for x in dirs if x != 'integration_tests']
        files += [os.path.relpath(os.path.join(d, f), repo) for f in fs if f.startswith('test_') and f.endswith('.py')]
    for f in sorted(files):
        if 'formula/test_' in f and 'validation' not in f and os.environ.get('FAST'):
            continue
        sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + repo, '--timeout=300',
            '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
            '--junitxml=%s/%s.xml' % (reports, f[:-3].replace('/', '.')), f], repo)
    sh([PY, '/opt/vp/results.py', out, 'junit:%s/*.xml' % reports], repo)
    got = json.load(open(out))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [t for t in want if t not in got['passed']]


def build(repo):
    code = ("import importlib,pathlib,sys\nsys.path.insert(0,'.')\n"
            "for r in ('contracts','contract_generator'):\n"
            "  for f in sorted(pathlib.Path(r).rglob('*.py')):\n"
            "    if not f.name.startswith('print_'):\n"
            "      n='.'.join(f.with_suffix('').parts)\n"
            "      importlib.import_module(n[:-9] if n.endswith('.__init__') else n)\n")
    r, o = sh([PY, '-W', 'error::SyntaxWarning', '-c', code], repo)
    if r == 0:
        r, o = sh([PY, 'build.py'], repo)
    return r, o


def plant(bid, b):
    work = '/tmp/plant/' + bid
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    a, c = work + '/a', work + '/b'
    for d in (a, c):
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('build', '__pycache__'))
    for f, old, new in b['edits']:
        p = os.path.join(c, f)
        s = open(p).read()
        if s.count(old) != 1:
            return bid, 'edit of %s matches %d times' % (f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    r, diff = sh(['git', 'diff'], c)
    demo = work + '/demo'
    os.makedirs(demo)
    for f in ('lab.py',) if b.get('chain', True) else ():
        shutil.copy(os.path.join(HERE, f), demo)
    if b.get('chain', True):
        shutil.copy(os.path.join(ROOT, 'mc', 'chain.py'), demo)
        s = open(os.path.join(ROOT, 'mc', 'actors.py')).read().replace('from . import chain', 'import chain')
        open(demo + '/actors.py', 'w').write(s)
    open(demo + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(demo + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(demo + '/demo.sh', 0o755)
    for d in (a, c):
        r, o = build(d)
        if r:
            return bid, 'build fails in %s: %s' % (d, o[-300:])
    r, o = sh(['bash', demo + '/demo.sh'], a)
    if r:
        return bid, 'demo fails without the patch: ' + o[-400:]
    r, o = sh(['bash', demo + '/demo.sh'], c)
    if not r:
        return bid, 'demo passes with the patch'
    msg = o.strip().splitlines()[-1] if o.strip() else ''
    bad = stable(c, work)
    if bad:
        return bid, 'stable tests fail: %s' % bad[:3]
    dst = os.path.join(ROOT, 'seeded', bid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(demo, dst)
    open(dst + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(dst + '/meta.json', 'w'), indent=1)
    shutil.rmtree(work)
    return bid, 'PLANTED (%s)' % msg[:150]


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    with ThreadPoolExecutor(8) as ex:
        for bid, r in ex.map(lambda i: plant(i, m.BUGS[i]), ids):
            print('%-22s %s' % (bid, r), flush=True)


main()
