"""Extraction of the resolved program of /repo (clang front end) and the in-memory program model."""
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """The analysis could not be carried out (parse error, vanished anchor...): neither pass nor violation."""


def strip_t(q):
    """Strip template arguments from a qualified name."""
    out = []
    d = 0
    i = 0
    n = len(q)
    while i < n:
        c = q[i]
        if q.startswith('operator', i) and (i == 0 or not (q[i - 1].isalnum() or q[i - 1] == '_')):
            j = i + 8
            op = ''
            while j < n and q[j] in '<>=!+-*/%&|^~[]()':
                op += q[j]
                j += 1
            if op and d == 0:
                # operator<, operator<<, operator->... : the operator spelling itself, then template args
                if op.startswith('<<') and not op.startswith('<<='):
                    op = '<<'
                elif op.startswith('<=>'):
                    op = '<=>'
                elif op.startswith('<='):
                    op = '<='
                elif op.startswith('<'):
                    op = '<'
                elif op.startswith('()'):
                    op = '()'
                elif op.startswith('[]'):
                    op = '[]'
                elif '<' in op:
                    op = op[:op.index('<')]
                out.append('operator' + op)
                i = i + 8 + len(op)
                continue
        if c == '<':
            d += 1
        elif c == '>':
            if d > 0:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def _hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _tree(root, exts):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


def ensure_extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'extract-' + _hash_files_content(src))
    if os.path.exists(out):
        return out
    fd, tmp = tempfile.mkstemp(dir=BUILD, prefix='extract-tmp')
    os.close(fd)
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        os.unlink(tmp)
        raise AnalysisBroken('building the extractor failed:\n' + r.stderr[-3000:])
    os.chmod(tmp, 0o755)
    os.rename(tmp, out)
    return out


CONFIGS = {
    'release': ['-DNDEBUG'],
    'debug': ['-D__INTERNALDEBUG=1', '-DFASTDDS_ENFORCE_LOG_INFO=1', '-D_DEBUG=1'],
}


def sources():
    s = _tree(os.path.join(REPO, 'cpp_utils', 'src', 'cpp'), ('.cpp',))
    return sorted(s)


def compiler_args(config):
    r = REPO
    return ['-std=c++17', '-w'] + CONFIGS[config] + [
        '-I' + VERIF + '/stubs', '-I' + VERIF + '/stubs/gen',
        '-I' + r + '/cpp_utils/include', '-I' + r + '/cpp_utils/include/cpp_utils',
        '-I' + r + '/cpp_utils/src/cpp', '-I' + r + '/thirdparty/filewatch',
        '-resource-dir', LLVM + '/lib/clang/18']


# Development only (scratch-copy experiments): share per-unit results between copies of the repository whose included files
# are identical.  Off unless VERIF_TUCACHE names a directory.
TUCACHE = os.environ.get('VERIF_TUCACHE')


def _rel(p):
    return p.replace(REPO + '/', '@REPO@/').replace(VERIF + '/', '@VERIF@/')


def tu_cache_get(src, config):
    if not TUCACHE:
        return None
    base = os.path.join(TUCACHE, hashlib.sha256((config + _rel(src)).encode()).hexdigest()[:16])
    try:
        for e in os.listdir(base):
            if not e.endswith('.deps'):
                continue
            with open(os.path.join(base, e)) as f:
                deps = json.load(f)
            if all(os.path.exists(_abs(p)) and _hash_files_content(_abs(p)) == h for p, h in deps.items()):
                with open(os.path.join(base, e[:-5] + '.json')) as f:
                    return json.loads(f.read().replace('@REPO@/', REPO + '/').replace('@VERIF@/', VERIF + '/'))
    except OSError:
        pass
    return None


def _abs(p):
    return p.replace('@REPO@/', REPO + '/').replace('@VERIF@/', VERIF + '/')


def _hash_files_content(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()[:24]


def tu_cache_put(src, config, text, d):
    if not TUCACHE:
        return
    base = os.path.join(TUCACHE, hashlib.sha256((config + _rel(src)).encode()).hexdigest()[:16])
    os.makedirs(base, exist_ok=True)
    deps = {}
    for p in d['files'] + [src, os.path.join(VERIF, 'tool', 'extract.cpp')]:
        p = os.path.normpath(p)
        if os.path.isfile(p) and not p.startswith('/usr/'):
            deps[_rel(p)] = _hash_files_content(p)
    k = hashlib.sha256(json.dumps(deps, sort_keys=True).encode()).hexdigest()[:16]
    with open(os.path.join(base, k + '.json'), 'w') as f:
        f.write(text.replace(REPO + '/', '@REPO@/').replace(VERIF + '/', '@VERIF@/'))
    with open(os.path.join(base, k + '.deps'), 'w') as f:
        json.dump(deps, f)


def raw_facts(config='release', progress=False):
    """Parse every translation unit, return list of per-TU dicts (cached by content)."""
    ex = ensure_extractor()
    tus = sources() + sorted(_tree(os.path.join(VERIF, 'tu'), ('.cpp',)))
    deps = _tree(os.path.join(REPO, 'cpp_utils', 'include'), ('.hpp', '.h', '.ipp')) + \
        _tree(os.path.join(REPO, 'cpp_utils', 'src', 'cpp'), ('.hpp', '.h', '.ipp', '.cpp')) + \
        _tree(os.path.join(REPO, 'thirdparty'), ('.hpp', '.h')) + \
        _tree(os.path.join(VERIF, 'stubs'), ('.hpp', '.h')) + _tree(os.path.join(VERIF, 'tu'), ('.cpp',)) + \
        [os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.abspath(__file__)]
    key = _hash_files(deps, config + REPO + VERIF)
    cache = os.path.join(BUILD, 'facts-%s-%s.pkl' % (config, key))
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    roots = REPO + '/cpp_utils:' + VERIF + '/tu'
    args = compiler_args(config)
    tmpd = tempfile.mkdtemp(prefix='facts', dir=BUILD)
    failures = []

    def one(i):
        src = tus[i]
        out = os.path.join(tmpd, '%d.json' % i)
        cached = tu_cache_get(src, config)
        if cached is not None:
            cached['tu'] = src
            return cached
        r = subprocess.run([ex, out, roots, src] + args, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            failures.append((src, r.stderr[-1500:]))
            return None
        with open(out) as f:
            text = f.read()
        d = json.loads(text)
        tu_cache_put(src, config, text, d)
        os.unlink(out)
        d['tu'] = src
        return d

    try:
        with ThreadPoolExecutor(8) as ex_:
            res = list(ex_.map(one, range(len(tus))))
    finally:
        for f in os.listdir(tmpd):
            os.unlink(os.path.join(tmpd, f))
        os.rmdir(tmpd)
    if failures:
        raise AnalysisBroken('%d translation unit(s) do not parse; first: %s\n%s' % (
            len(failures), failures[0][0], failures[0][1]))
    fd, tmp = tempfile.mkstemp(dir=BUILD, prefix='tmpfacts')
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(res, f)
    # keep the cache small
    old = sorted((os.path.getmtime(os.path.join(BUILD, x)), x) for x in os.listdir(BUILD) if x.startswith('facts-') and x.endswith('.pkl'))
    for _, x in old[:-6]:
        try:
            os.unlink(os.path.join(BUILD, x))
        except OSError:
            pass
    os.rename(tmp, cache)
    return res


class Prog:
    def __init__(self, config='release'):
        tus = raw_facts(config)
        self.config = config
        self.records = {}
        self.enums = {}
        self.functions = {}
        self.globals = {}
        self.files = []
        self._fidx = {}
        self.tus = [t['tu'] for t in tus]
        self.lambdas = {}
        self.nnodes = 0
        for t in tus:
            fm = []
            for f in t['files']:
                f = os.path.normpath(f)
                if f not in self._fidx:
                    self._fidx[f] = len(self.files)
                    self.files.append(f)
                fm.append(self._fidx[f])
            for k, v in t['records'].items():
                cur = self.records.get(k)
                if cur is None or (not cur.get('fields') and not cur.get('methods')):
                    self._relocate(v, fm)
                    v['_tu'] = t['tu']
                    self.records[k] = v
                else:
                    have = {m['u'] for m in cur.get('methods', [])}
                    for m in v.get('methods', []):
                        if m['u'] not in have:
                            cur['methods'].append(m)
            for k, v in t['enums'].items():
                self.enums.setdefault(k, v)
            for k, v in t['functions'].items():
                cur = self.functions.get(k)
                if cur is None or (cur.get('body') is None and v.get('body') is not None):
                    self._relocate(v, fm)
                    v['_tu'] = t['tu']
                    self.functions[k] = v
            for k, v in t['globals'].items():
                cur = self.globals.get(k)
                if cur is None or (cur.get('init') is None and v.get('init') is not None):
                    self._relocate(v, fm)
                    v['_tu'] = t['tu']
                    self.globals[k] = v
        self.byq = {}
        for k, f in self.functions.items():
            f['sq'] = strip_t(f['q'])
            self.byq.setdefault(f['sq'], []).append(f)
        self.rbyq = {}
        for k, r in self.records.items():
            r['u'] = k
            r['sq'] = strip_t(r['q'])
            self.rbyq.setdefault(r['sq'], []).append(r)

    def _relocate(self, n, fm):
        if isinstance(n, dict):
            for key in ('l', 'loc'):
                l = n.get(key)
                if isinstance(l, list) and len(l) == 2 and isinstance(l[0], int):
                    n[key] = (fm[l[0]] if 0 <= l[0] < len(fm) else -1, l[1])
            if 'k' in n and 'i' not in n:
                self.nnodes += 1
                n['i'] = self.nnodes
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self._relocate(v, fm)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    self._relocate(v, fm)

    def loc(self, l):
        if not l or l[0] is None or l[0] < 0:
            return '?'
        f = self.files[l[0]]
        for p in (REPO + '/', VERIF + '/'):
            if f.startswith(p):
                f = f[len(p):]
        return '%s:%d' % (f, l[1])

    # ---- classes
    def rec(self, sq, pick=None):
        """The record(s) with that template-stripped qualified name (public API name)."""
        r = [x for x in self.rbyq.get(sq, []) if x.get('repo') and (x.get('fields') is not None)]
        if not r:
            raise AnalysisBroken('class %s not found in the analysed program' % sq)
        return r

    def bases(self, u):
        """All base classes (transitively), nearest first."""
        out = []
        r = self.records.get(u)
        if not r:
            return out
        for b in r.get('bases', []):
            if b['u'] not in out:
                out.append(b['u'])
            for x in self.bases(b['u']):
                if x not in out:
                    out.append(x)
        return out

    def derived_from(self, u):
        return [k for k in self.records if u in self.bases(k)]

    def all_fields(self, u):
        """(owner usr, field) of u and its bases."""
        r = self.records.get(u)
        if not r:
            return []
        out = [(u, f) for f in r.get('fields', [])]
        for b in r.get('bases', []):
            out += self.all_fields(b['u'])
        return out

    def field(self, u, name):
        for o, f in self.all_fields(u):
            if f['name'] == name:
                return f
        return None

    def find_override(self, cls, m_u):
        """Final overrider of virtual method m_u in class cls."""
        order = [cls] + self.bases(cls)
        for c in order:
            r = self.records.get(c)
            if not r:
                continue
            for m in r.get('methods', []):
                if m['u'] == m_u or self._overrides(m, m_u):
                    return m['u']
        return m_u

    def _overrides(self, m, target, depth=0):
        if depth > 6:
            return False
        for o in m.get('ov', []):
            if o == target:
                return True
            mm = self.method(o)
            if mm and self._overrides(mm, target, depth + 1):
                return True
        return False

    def method(self, u):
        if not hasattr(self, '_mindex'):
            self._mindex = {}
            for r in self.records.values():
                for m in r.get('methods', []):
                    self._mindex.setdefault(m['u'], (m, r))
        x = self._mindex.get(u)
        return x[0] if x else None

    def method_owner(self, u):
        self.method(u)
        x = self._mindex.get(u)
        return x[1] if x else None

    def public_methods(self, u, include_bases=True):
        """[(method, owner record)] callable by a user of class u: own public methods and public methods of
        public bases, plus inherited ones re-exported by using-declarations ('using' list if present)."""
        out = []
        seen = set()

        def add(c, acc_public):
            r = self.records.get(c)
            if not r:
                return
            for m in r.get('methods', []):
                if m.get('implicit'):
                    continue
                if m['access'] == 0 and acc_public and m['u'] not in seen:
                    seen.add(m['u'])
                    out.append((m, r))
            if acc_public:
                for x in r.get('usings', []):
                    m = self.method(x)
                    if m and x not in seen and m['kind'] != 'ctor':
                        seen.add(x)
                        out.append((m, self.method_owner(x)))
            if include_bases:
                for b in r.get('bases', []):
                    add(b['u'], acc_public and b['access'] == 0)
        add(u, True)
        return out

    def fn(self, u):
        return self.functions.get(u)

    def has_body(self, u):
        f = self.functions.get(u)
        return bool(f and f.get('body') is not None)


if __name__ == '__main__':
    for _c in sys.argv[1:] or ['release']:
        _p = Prog(_c)
        print('%s: %d translation units, %d functions, %d records' % (_c, len(_p.tus), len(_p.functions), len(_p.records)))
