#!/usr/bin/env python3
"""Development regression: textual mutants (must be caught) and refactorings (must stay quiet), each analysed in a scratch copy.
usage: mut.py FILE.py [filter]   FILE.py defines M = [(name, [pids], expect, [(file, old, new)...])]"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

spec = importlib.util.spec_from_file_location('m', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
flt = sys.argv[2] if len(sys.argv) > 2 else ''


def one(x):
    name, pids, expect, edits = x
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    out = []
    try:
        subprocess.run(['cp', '-a'] + [os.environ.get('MREPO', '/repo') + x for x in ('/cpp_utils', '/py_utils', '/thirdparty')] + [d + '/'], check=True)
        for f, old, new in edits:
            p = d + '/' + f
            s = open(p).read()
            n = s.count(old)
            if n < 1:
                return '%s: EDIT NOT FOUND %r in %s' % (name, old[:50], f)
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + '/b', VERIF_TUCACHE='/tmp/tucache')
        os.makedirs(d + '/b')
        for y in os.listdir('/verif/build'):
            if y.startswith('extract'):
                os.symlink('/verif/build/' + y, d + '/b/' + y)
        os.makedirs(d + '/v')
        shutil.copytree(os.environ.get('ENG', '/verif/engine'), d + '/v/engine', ignore=shutil.ignore_patterns('__pycache__'))
        for y in ('tool', 'stubs', 'tu'):
            os.symlink('/verif/' + y, d + '/v/' + y)
        for y in ('check.py', 'known_findings.json'):
            if os.path.exists('/verif/' + y):
                shutil.copy('/verif/' + y, d + '/v/' + y)
        for pid in pids:
            r = subprocess.run([sys.executable, d + '/v/check.py', pid], env=env, capture_output=True, text=True, timeout=900)
            got = {0: 'quiet', 1: 'caught'}.get(r.returncode, 'BROKEN')
            flag = 'ok ' if got == expect else '***'
            line = '%s %-44s %s expect=%s got=%s' % (flag, name, pid, expect, got)
            if got != 'quiet':
                t = [q for q in r.stdout.splitlines() if '[' in q or 'BROKEN' in q or 'Error' in q][:2]
                line += '\n        ' + '\n        '.join(z[:260] for z in t)
                if got == 'BROKEN':
                    line += r.stderr[-300:]
            out.append(line)
    finally:
        shutil.rmtree(d)
    return '\n'.join(out)


items = [x for x in m.M if flt in x[0] or flt in x[1]]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, items):
        print(r, flush=True)
