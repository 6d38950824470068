#!/opt/venv/bin/python
"""tools/plant.py ID FILE : confirm a planted change.  FILE is a python file defining
PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new), ...], DEMO (python text).
Builds a scratch copy of /repo, applies the edits, runs demo on both trees, the stable tests on the changed copy,
and writes seeded/ID/ when everything is confirmed."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ident, f = sys.argv[1:3]
quick = '--notest' in sys.argv
ns = {}
exec(open(f).read(), ns)
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
try:
    r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '--shared', '/repo', r], check=True)
    for path, old, new in ns['EDITS']:
        t = open(r + '/' + path).read()
        n = t.count(old)
        if n != 1:
            sys.exit('%s: %d occurrences of %r' % (path, n, old))
        open(r + '/' + path, 'w').write(t.replace(old, new))
    patch = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True, check=True).stdout
    s = d + '/seed'
    os.mkdir(s)
    open(s + '/patch.diff', 'w').write(patch)
    open(s + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    open(s + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository: exit 0 when the behaviour is right
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
W=$(mktemp -d) || exit 3
trap 'find "$W" -delete' EXIT
cd "$W" && /opt/venv/bin/python "$HERE/demo.py"
''')
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(s + '/meta.json', 'w'), indent=1)
    for tree, want in (('/repo', True), (r, False)):
        p = subprocess.run(['bash', s + '/demo.sh'], cwd=tree, capture_output=True, text=True, timeout=300)
        print(tree, 'demo exit', p.returncode, p.stdout[-300:], p.stderr[-500:])
        if (p.returncode == 0) != want:
            sys.exit('demo not confirmed')
    if not quick:
        for sc in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % sc).read().replace('/repo', r)
            open(d + '/%s.sh' % sc, 'w').write(t)
        env = dict(os.environ, PYTHONPATH=r)
        p = subprocess.run(['bash', d + '/build.sh'], env=env, capture_output=True, text=True)
        if p.returncode:
            sys.exit('build fails: ' + p.stdout[-500:] + p.stderr[-500:])
        p = subprocess.run(['bash', d + '/test.sh', d + '/out.json'], env=env, capture_output=True, text=True)
        o = json.load(open(d + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        lst = base if isinstance(base, list) else base.get('passed') or base.get('tests') or base.get('stable')
        bad = [t for t in lst if t not in set(o['passed'])]
        print(len(lst), 'stable tests,', len(bad), 'failing', bad[:5])
        if bad:
            sys.exit('stable tests fail')
    dest = top + '/seeded/' + ident
    if os.path.isdir(dest):
        shutil.rmtree(dest)
    shutil.copytree(s, dest)
    print('planted', ident)
finally:
    shutil.rmtree(d)
