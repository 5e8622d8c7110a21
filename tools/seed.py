#!/usr/bin/env python3
"""(Re)create /verif/seeded/<id> from tools/seeds/*.py and confirm each in scratch copies.
usage: seed.py [--full] [ID...]   --full also builds /repo with the patch, runs its tests, and the property's check"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
for p in sorted(glob.glob(H + '/tools/seeds/*.py')):
    spec = importlib.util.spec_from_file_location('s', p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.S:
        assert s['id'] not in SEEDS, s['id']
        SEEDS[s['id']] = s

CPP = '''#!/bin/bash
# Builds demo.cpp against the sources in the current directory and runs it.  Exit 0: behaves as stated.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)/cpp_utils
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
S="$R/src/cpp"
g++ -std=c++17 -g -O1 -w -pthread {flags} -I"$R/include" {inc} "$D/demo.cpp" {srcs} -o "$T/demo" {libs} || exit 3
cd "$T" && timeout {to} ./demo
'''
PY = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)/py_utils" timeout {to} python3 "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(s):
    d = H + '/seeded/' + s['id']
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        sh('git clone -q /repo %s/r' % t)
        for f, old, new in s['edits']:
            p = t + '/r/' + f
            x = open(p).read()
            assert x.count(old) >= 1, (s['id'], f, old)
            open(p, 'w').write(x.replace(old, new, 1))
        diff = sh('git -C %s/r diff' % t).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if 'py' in s:
            open(d + '/demo.py', 'w').write(s['py'])
            open(d + '/demo.sh', 'w').write(PY.format(to=s.get('to', 60)))
        else:
            open(d + '/demo.cpp', 'w').write(s['cpp'])
            stub = s.get('stub', True)
            if stub:
                shutil.copytree(H + '/stubs', d + '/stubs')
                shutil.copy(H + '/tools/demo/rt.cpp', d + '/rt.cpp')
            base = s.get('srcs', [])
            srcs = ' '.join('"$S"/' + x for x in base) + (' "$D/rt.cpp"' if stub else '')
            open(d + '/demo.sh', 'w').write(CPP.format(flags=s.get('flags', ''), inc='-I"$D/stubs" -I"$D/stubs/gen"' if stub else '', srcs=srcs,
                                                       to=s.get('to', 60), libs=s.get('libs', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # demonstration in the two scratch copies, from a copy of the folder elsewhere
        shutil.copytree(d, t + '/demo')
        os.rename(t + '/r', t + '/bad')
        sh('git clone -q /repo %s/good' % t)
        res = []
        for w in ('good', 'bad'):
            for k in range(s.get('repeat', 2)):
                r = sh('bash %s/demo/demo.sh' % t, cwd=t + '/' + w)
                res.append((w, r.returncode))
                if (r.returncode != 0) != (w == 'bad') or r.returncode == 3:
                    print(s['id'], w, 'rc', r.returncode, r.stdout[-300:], r.stderr[-300:])
        ok = all((rc == 0) == (w == 'good') and rc != 3 for w, rc in res)
        print('%-28s %s demo %s' % (s['id'], s['property'], 'ok' if ok else '*** ' + str(res)), flush=True)
    finally:
        shutil.rmtree(t)


def full(s):
    d = H + '/seeded/' + s['id']
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        assert r.returncode == 0, r.stderr
        r = sh('bash /opt/vp/build.sh')
        b = r.returncode
        r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        o = json.load(open('/tmp/seedtest.json'))
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = set(o.get('passed', []))
        miss = base - passed
        r = sh('python3 check.py %s' % s['property'], cwd=H)
        v = [x for x in r.stdout.splitlines() if '[' in x][:1]
        print('%-28s %s build %d missing-tests %d check %s %s' % (s['id'], s['property'], b, len(miss), {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'BROKEN ' + r.stdout[-200:]),
                                                                  v[0][:200] if v else ''), flush=True)
    finally:
        sh('git -C /repo checkout -- .')


ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(SEEDS)
for i in ids:
    if '--nodemo' not in sys.argv:
        make(SEEDS[i])
if '--full' in sys.argv:
    for i in ids:
        full(SEEDS[i])
    sh('bash /opt/vp/build.sh')
