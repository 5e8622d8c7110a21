"""Path-sensitive interprocedural abstract interpreter.

Builds, for an entry point, the exploded graph (program point x abstract state) of the resolved program:
callees with a body in the repository are analysed in context (virtual calls through the known dynamic class),
loops are closed by a fixpoint over abstract states, identical states are merged at statement ends.
Edges carry events (lock acquire/release, condition-variable waits and notifications, reads/writes of shared
fields, callback invocations, thread spawn/join, opaque calls, throws...).  Rules are automata run over that graph.
"""
import sys

from dom import (C0, C1, NULL, TOP, VOID, add, assume, const, decide, depth, mk_cmp, neg, subst, symbols, truth)
from facts import strip_t
import dom

sys.setrecursionlimit(100000)


class Limit(Exception):
    pass


GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::shared_lock', 'std::scoped_lock'}
MUTEX = {'std::mutex', 'std::recursive_mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::timed_mutex',
         'std::recursive_timed_mutex'}
MUTEX_BASES = MUTEX | {'std::__shared_mutex_pthread', 'std::__mutex_base', 'std::__shared_timed_mutex_base', 'std::__recursive_mutex_base'}
RECURSIVE = {'std::recursive_mutex', 'std::recursive_timed_mutex'}
CONTAINERS = ('std::vector<', 'std::map<', 'std::set<', 'std::list<', 'std::queue<', 'std::deque<', 'std::unordered_map<',
              'std::unordered_set<', 'std::multimap<', 'std::stack<', 'std::array<', 'std::basic_string<', 'std::multiset<',
              'std::initializer_list<', 'std::priority_queue<')
SMART = {'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::weak_ptr',
         'std::__weak_ptr', 'std::__uniq_ptr_impl', 'std::__uniq_ptr_data'}
ATOMIC = {'std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::__atomic_float'}
CV = {'std::condition_variable', 'std::condition_variable_any'}


INT_BITS = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'short': 16,
            'unsigned short': 16, 'signed char': 8, 'unsigned char': 8, 'char': 8}


def wrap(v, t):
    """arithmetic on unsigned types is modular"""
    if v[0] == 'c' and isinstance(v[1], int) and not isinstance(v[1], bool) and 'unsigned' in t:
        bits = INT_BITS.get(unconst(t))
        if bits:
            return ('c', v[1] & ((1 << bits) - 1))
    return v


def unconst(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('&'):
            t = t[:-1].strip()
        else:
            return t.strip()


def is_scalar_t(t):
    t = unconst(t)
    return t.endswith('*') or t in ('bool', 'int', 'unsigned int', 'long', 'unsigned long', 'char', 'short', 'unsigned short',
                                    'unsigned char', 'signed char', 'float', 'double', 'long long', 'unsigned long long',
                                    'std::nullptr_t', 'void', 'long double', 'wchar_t')


class Frame:
    __slots__ = ('fn', 'this', 'd', 'caps', 'ret', 'ctx', 'clsid', 'args', 'up')

    def __init__(self, fn, this, d, caps, ret, ctx, clsid=None, args=None, up=None):
        self.fn = fn
        self.this = this
        self.d = d
        self.caps = caps
        self.ret = ret
        self.ctx = ctx
        self.clsid = clsid
        self.args = args
        self.up = up


class St:
    __slots__ = ('store', 'facts', 'locks', 'hv', 'node', 'exc', 'temps', 'caught')

    def __init__(self):
        self.store = {}
        self.facts = frozenset()
        self.locks = ()
        self.hv = '0'
        self.node = 0
        self.exc = None
        self.temps = ()
        self.caught = ()

    def clone(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.facts = self.facts
        s.locks = self.locks
        s.hv = self.hv
        s.node = self.node
        s.exc = self.exc
        s.temps = self.temps
        s.caught = self.caught
        return s

    def key(self):
        return (frozenset(self.store.items()), self.facts, self.locks, self.hv, self.exc, self.temps, self.caught)


class Graph:
    def __init__(self):
        self.succ = [[]]
        self.events = []
        self.index = {}
        self.exits = []   # (node, kind, state, value)

    def new(self):
        self.succ.append([])
        return len(self.succ) - 1


def shared_root(path):
    return path[0] in ('this', 'g', 'P', '?', 'X')


def fmt_path(p):
    if p is None:
        return '<none>'
    if p[0] == 'this':
        r = 'this'
        rest = p[1:]
    elif p[0] == 'l':
        r = str(p[2]).split(':')[-1].split('#')[0]
        rest = p[3:]
    elif p[0] in ('g', 'P', '?', 'h', 't', 'X'):
        r = str(p[1])
        if p[0] == 'g':
            r = r.split('@')[-1]
        rest = p[2:] if p[0] not in ('h', 't') else p[3:]
        if p[0] in ('h', 't'):
            r = {'h': 'heap', 't': 'tmp'}[p[0]] + '#%s' % p[1]
    else:
        r = str(p[0])
        rest = p[1:]
    for x in rest:
        if x == '*':
            r = '*' + r if False else r + '->*'
        elif x == '[]':
            r += '[]'
        else:
            r += '.' + str(x)
    return r


def floatless(e):
    return not any(x in e.get('t', '') for x in ('double', 'float'))


class Interp:
    def __init__(self, prog, max_nodes=150000, may_throw=None, opaque=None, dyn=None, cb_const=None, track_elem=False, confined=(), still=False, running=(), keep=(), snap=(), handlers=False):
        self.p = prog
        self.handlers = handlers          # every handler of exceptions is explored
        self.g = Graph()
        self.max_nodes = max_nodes
        self.memo = {}
        self.visits = {}
        self.refs = {}
        self.may_throw = may_throw or (lambda ev: False)
        self.opaque = opaque or (lambda f: False)
        self.confined = tuple(confined)   # objects that one thread uses at a time (paths, not what they point to)
        self.running = running            # where threads that have been started, and not joined yet, are kept
        self.keep = tuple(keep)           # results of these library functions are remembered for good
        self.snap = tuple(snap)           # calls of these, and ends of loop bodies, are recorded with the store
        self.still = still                # no other thread runs: atomics keep their values
        self.dyn = dyn or {}          # path -> class usr (known dynamic classes)
        self.closures = {}
        self.escapes = []             # (closure value, callee name, event, state)
        self.t2rec = getattr(prog, '_t2rec', None)
        if self.t2rec is None:
            self.t2rec = {}
            for u, r in prog.records.items():
                self.t2rec.setdefault(r.get('t') or r['q'], u)
            prog._t2rec = self.t2rec
        self.unsupported = []
        self.inlined = set()
        self.callsites = 0
        self.steps = 0

    # ------------------------------------------------------------------ graph
    def emit(self, st, _k, e, fr, **d):
        ev = d
        ev["k"] = _k
        ev['l'] = e.get('l') if e else None
        ev['i'] = e.get('i') if e else None
        ev['fn'] = fr.fn if fr else None
        ev['locks'] = st.locks
        ev['facts'] = st.facts
        ev['ctx'] = fr.ctx if fr else ()
        ev['fthis'] = fr.this if fr else None
        n = self.g.new()
        if n > self.max_nodes:
            raise Limit('more than %d graph nodes' % self.max_nodes)
        self.g.succ[st.node].append((ev, n))
        st.node = n
        return ev

    def join(self, st, key):
        n = self.g.index.get(key)
        if n is None:
            n = self.g.new()
            if n > self.max_nodes:
                raise Limit('more than %d graph nodes' % self.max_nodes)
            self.g.index[key] = n
            self.g.succ[st.node].append((None, n))
        elif n != st.node:
            if (None, n) not in self.g.succ[st.node]:
                self.g.succ[st.node].append((None, n))
        st.node = n

    # ------------------------------------------------------------------ store
    def sym(self, path, st):
        ver = st.hv if shared_root(path) and not self.is_confined(path) and not self.is_const_path(path, st) else 'k'
        return ('fld', path, ver)

    def is_confined(self, path):
        for c in self.confined:
            if path[:len(c)] == c and '*' not in path[len(c):]:
                return True
        return False

    def is_const_path(self, path, st=None):
        if st is not None and len(path) > 1:
            w = st.store.get(path[:-1] + ('%cls',))
            if w is not None and w[0] == 'cls':
                fc = self._fconst.get(w[1]) if hasattr(self, '_fconst') else None
                if fc is None:
                    if not hasattr(self, '_fconst'):
                        self._fconst = {}
                    fc = self._fconst[w[1]] = {}
                    for o, f in self.p.all_fields(w[1]):
                        fc[f['name']] = f['t'].startswith('const ') and not f['t'].endswith('*') and not f.get('mutable')
                if path[-1] in fc:
                    return fc[path[-1]]
        c = getattr(self, '_constf', None)
        if c is None:
            c = self._constf = set()
            for r in self.p.records.values():
                if r.get('repo'):
                    for f in r.get('fields') or []:
                        if f['t'].startswith('const ') and not f['t'].endswith('*') and not f.get('mutable'):
                            c.add(f['name'])
        # a name is treated as constant only when every field of that name is const
        nc = getattr(self, '_nconstf', None)
        if nc is None:
            nc = self._nconstf = set()
            for r in self.p.records.values():
                if r.get('repo'):
                    for f in r.get('fields') or []:
                        if not (f['t'].startswith('const ') and not f['t'].endswith('*')):
                            nc.add(f['name'])
        return path[-1] in c and path[-1] not in nc

    def load(self, path, st, t=None):
        v = st.store.get(path)
        if v is not None:
            if v[0] == 'alias':
                return self.load(v[1], st, t)
            return v
        # value copied as a whole from a symbolic object
        for n in range(len(path) - 1, 1, -1):
            w = st.store.get(path[:n])
            if w is not None:
                if w[0] == 'alias':
                    return self.load(w[1] + path[n:], st, t)
                if path[n] == '*':
                    break
                if w[0] == 'fld':
                    return self._typed(('fld', w[1] + path[n:], w[2]), t)
                if w[0] in ('r', 'p', 'old', 'moved'):
                    return self._typed(('fld', ('?', w) + path[n:], 'k'), t)
                break
        if not shared_root(path) and '[]' not in path:
            if path[0] == 'l' and len(path) == 3 or path[0] in ('t', 'h', 'l'):
                return ('uninit', path)
        v = self._typed(self.sym(path, st), t)
        st.store[path] = v
        return v

    def _typed(self, v, t):
        if t and ('unsigned' in t or t == 'unsigned'):
            dom.UNSIGNED.add(v)
        return v

    def setv(self, path, v, st):
        if depth(v) > 8:
            v = ('r', 'deep', path[-1] if isinstance(path[-1], str) else '?')
        # drop sub-entries
        n = len(path)
        for k in [k for k in st.store if len(k) > n and k[:n] == path]:
            # what a pointer pointed to is still there when the pointer changes
            if k[n] != '%cls' and k[n] != '*':
                del st.store[k]
        # summary elements: weak update
        st.store[path] = v

    def forget(self, path, st, keep_cls=False):
        n = len(path)
        for k in [k for k in st.store if k[:n] == path]:
            del st.store[k]

    itcmp = {}

    def renew(self, el, st):
        """Another element of a container is looked at: what is known of the previous one does not concern it."""
        n = len(el)
        self.forget(el, st)

        def cur(s):
            return s[0] == 'fld' and s[1][:n] == el

        def old(s):
            return s[0] == 'old' and s[1][:n] == el

        def ren(s):
            return ('old', s[1], s[2]) if cur(s) else None
        has = False
        for k, v in list(st.store.items()):
            ss = symbols(v)
            if any(old(x) for x in ss):
                st.store[k] = TOP if any(cur(x) for x in ss) else subst(v, lambda x: ('old', x[1], 'older') if old(x) else None)
                ss = symbols(st.store[k])
            if any(cur(x) for x in ss):
                st.store[k] = subst(v, ren)
                has = True
        if st.facts:
            nf = set()
            for a, pol in st.facts:
                ss = symbols(a)
                if any(old(x) for x in ss) or any(y[0] == 'it' and y[1][:n] == el for y in (a[1:] if len(a) > 1 else ()) if isinstance(y, tuple) and len(y) > 1 and isinstance(y[1], tuple)):
                    continue
                if any(cur(x) for x in ss):
                    if has:
                        nf.add((subst(a, ren), pol))
                    continue
                nf.add((a, pol))
            st.facts = frozenset(nf)

    def havoc(self, st, site, what='all'):
        """Other threads may have run: forget everything known about shared mutable memory."""
        ver = 'h%s' % (site,)
        drop = []
        for k in st.store:
            if shared_root(k) and k[-1] != '%cls':
                if self.is_confined(k) or self.is_const_path(k):
                    continue
                if any(x == '%cls' for x in k if isinstance(x, str)):
                    continue
                if st.store[k][0] == 'alias' and len(k) <= 2:
                    continue
                drop.append(k)
        for k in drop:
            del st.store[k]

        def ren(s):
            if s[0] == 'fld' and s[2] == ver:
                return ('old', s[1], ver)
            if s[0] == 'old' and s[2] == ver:
                return s
            return None
        has_old = False
        for k, v in list(st.store.items()):
            if any(s[0] == 'fld' and s[2] == ver for s in symbols(v)):
                st.store[k] = subst(v, ren)
                has_old = True
        if st.facts:
            nf = set()
            for a, pol in st.facts:
                ss = symbols(a)
                if any(s[0] == 'fld' and s[2] == ver for s in ss):
                    if any(s[0] == 'old' and s[2] == ver for s in ss):
                        continue
                    if has_old:
                        nf.add((subst(a, ren), pol))
                    continue
                if any(s[0] == 'old' and s[2] == ver for s in ss):
                    continue
                nf.add((a, pol))
            st.facts = frozenset(nf)
        st.hv = ver

    def refresh(self, path, st, site, t=None):
        """An atomic read without any lock: another thread may have changed the value since it was last seen."""
        w = st.store.get(path)
        if w is not None and w[0] == 'alias':
            return self.refresh(w[1], st, site, t)
        ver = 'r%s' % (site,)
        new = ('fld', path, ver)
        old = ('old', path, ver)

        def ren(s):
            return old if s == new else None
        has = False
        for k, v in list(st.store.items()):
            if k != path and new in symbols(v):
                st.store[k] = subst(v, ren)
                has = True
        nf = set()
        for a, pol in st.facts:
            ss = symbols(a)
            if new in ss:
                if has and old not in ss:
                    nf.add((subst(a, ren), pol))
                continue
            if old in ss and has:
                continue
            nf.add((a, pol))
        st.facts = frozenset(nf)
        st.store[path] = self._typed(new, t)

    def gc(self, st, val=None):
        """Forget facts about values that nothing refers to any more."""
        if not st.facts:
            return
        live = set()
        for v in st.store.values():
            live |= symbols(v)
        if isinstance(val, tuple):
            live |= symbols(val)
        for x in st.exc or ():
            if isinstance(x, tuple):
                live |= symbols(x)
        nf = []
        for a, pol in st.facts:
            ok = True
            if self.keep and any(s[0] == 'r' and s[1] in self.keep for s in symbols(a)):
                nf.append((a, pol))
                continue
            for s in symbols(a):
                if s[0] in ('r', 'old', 'uninit') and s not in live and not (s[0] == 'uninit' and s[1][0] == 'l'):
                    ok = False
                    break
                if s[0] == 'fld' and s[2] not in ('k', st.hv, '0') and s not in live:
                    ok = False
                    break
            if ok:
                nf.append((a, pol))
        if len(nf) != len(st.facts):
            st.facts = frozenset(nf)

    def gc_temps(self, st, d, val):
        """Forget the temporaries of finished full expressions of this and deeper frames."""
        dead = [k for k in st.store if k[0] == 't' and k[1] != 'cap' and isinstance(k[2], int) and k[2] >= d]
        if not dead:
            return
        roots = {}
        for k in dead:
            roots.setdefault(k[:3], []).append(k)
        live = set()

        def scan(v):
            if isinstance(v, tuple):
                if len(v) >= 3 and v[0] == 't' and v[:3] in roots:
                    live.add(v[:3])
                for x in v:
                    if isinstance(x, tuple):
                        scan(x)
        for k, v in st.store.items():
            if k[0] != 't' or k[:3] not in roots:
                scan(v)
        for x in (val, st.exc, st.temps, st.caught, st.locks):
            scan(x)
        # temporaries reachable from live temporaries
        work = list(live)
        seen = set(live)
        while work:
            r = work.pop()
            for k in roots[r]:
                live.clear()
                scan(st.store[k])
                for y in live - seen:
                    seen.add(y)
                    work.append(y)
        for r, ks in roots.items():
            if r not in seen:
                for k in ks:
                    del st.store[k]

    def deref(self, v, st, e=None, fr=None):
        t = v[0]
        if t == 'ref':
            return v[1]
        if t == 'alias':
            return v[1]
        if t == 'fld':
            return v[1] + ('*',)
        if t == 'p':
            return ('P', v[1])
        if t == 'null':
            if e is not None:
                self.emit(st, 'nullderef', e, fr)
            return ('?', 'null')
        if t == 'old':
            return v[1] + ('*',)
        if t == 'own':
            return self.deref(v[1], st, e, fr)
        return ('?', v)

    # ------------------------------------------------------------------ branching
    def fork(self, cond, st):
        """[(state, bool)] feasible outcomes of a condition value."""
        c = truth(cond)
        if c[0] == 'c':
            return [(st, bool(c[1]))]
        if c == TOP:
            return [(st.clone(), True), (st, False)]
        d = decide(c, st.facts)
        if d == 'dead':
            return []
        if d is not None:
            return [(st, d)]
        out = []
        for val in (True, False):
            f = assume(c, val, st.facts)
            if f is None:
                continue
            s = st.clone() if val else st
            s.facts = f
            out.append((s, val))
        return out

    # ------------------------------------------------------------------ statements
    # outcome: (kind, st, val) ; kind in 'n','brk','cont','ret','thr'
    def exec(self, s, st, fr):
        if s is None:
            return [('n', st, None)]
        self.steps += 1
        mk = (fr.ctx, s['i'], st.node)
        m = self.memo.get(mk)
        if m is not None:
            return [(k, x.clone(), v) for k, x, v in m]
        k = s['k']
        vk = (fr.ctx, s['i'])
        n = self.visits[vk] = self.visits.get(vk, 0) + 1
        if n > (240 if self.snap else 24) and k != 'DeclStmt':
            self.generalise(st, vk, s, fr)
            mk = (fr.ctx, s['i'], st.node)
            m = self.memo.get(mk)
            if m is not None:
                return [(k, x.clone(), v) for k, x, v in m]
        h = getattr(self, 'x_' + k, None)
        if h:
            res = h(s, st, fr)
        else:
            res = self.expr_stmt(s, st, fr)
        out = []
        seen = set()
        for kind, x, v in res:
            self.gc_temps(x, fr.d, v)
            self.gc(x, v)
        if len(res) > 6:
            res = self.merge_facts(res)
        if len(res) > (100 if self.snap else 12):
            res = self.merge_stores(res, s, fr)
        for kind, x, v in res:
            kk = (fr.ctx, s['i'], kind, v, x.key())
            self.join(x, kk)
            if x.node in seen:
                continue
            seen.add(x.node)
            out.append((kind, x, v))
        self.memo[mk] = [(k, x.clone(), v) for k, x, v in out]
        return out

    def merge_facts(self, res):
        """States that differ in recorded facts only, when numerous, are merged (facts intersected)."""
        groups = {}
        for o in res:
            x = o[1]
            kept = frozenset(f for f in x.facts if any(y[0] == 'r' and (y[1] in self.keep or y[1] in self.snap) for y in symbols(f[0]))) if self.keep else None
            groups.setdefault((o[0], o[2], frozenset(x.store.items()), x.locks, x.hv, x.exc, x.temps, x.caught, kept), []).append(o)
        out = []
        for g in groups.values():
            if len(g) > 6:
                f = g[0][1].facts
                for o in g[1:]:
                    f = f & o[1].facts
                for o in g:
                    o[1].facts = f
            out += g
        return out

    def generalise(self, st, vk, s, fr):
        """A statement reached in very many states: forget the data on which they differ (not locks, ownership,
        pointers or control), so that the fixpoint stays finite and small."""
        keep = frozenset((k, v) for k, v in st.store.items() if v[0] in self.KEEP or k[-1] == '%cls')
        gk = (vk, keep, st.locks, st.hv, st.exc, st.temps, st.caught)
        ref = self.refs.get(gk)
        if ref is None:
            self.refs[gk] = (dict(st.store), st.facts)
            return
        store, facts = ref
        new = {}
        for k, v in st.store.items():
            if k in store:
                new[k] = v if store[k] == v or v[0] in self.KEEP or k[-1] == '%cls' else ('r', 'gen', s['i'], k[:6])
            elif not any(k[:n] in store for n in range(2, len(k))):
                new[k] = ('r', 'gen', s['i'], k[:6])
        for k, v in store.items():
            if k not in st.store and not any(k[:n] in st.store for n in range(2, len(k))):
                new[k] = ('r', 'gen', s['i'], k[:6])
        st.store = new
        st.facts = st.facts & facts
        self.refs[gk] = (dict(new), st.facts)
        self.join(st, (fr.ctx, s['i'], 'gen', st.key()))

    KEEP = ('guard', 'mguard', 'thread', 'nothread', 'own', 'null', 'ref', 'clos', 'bind', 'fnp', 'nofn', 'alias', 'cls')

    def above_zero(self, v, facts):
        if v[0] == 'c':
            return isinstance(v[1], int) and v[1] > 0
        return decide(mk_cmp('<', C0, v), facts) is True

    def merge_stores(self, res, where, fr=None):
        """Numerous outcomes of one statement: states that agree on ownership, locks, pointers and control are
        joined; other values on which they differ become unknown."""
        groups = {}
        for o in res:
            x = o[1]
            keep = frozenset((k, v) for k, v in x.store.items() if v[0] in self.KEEP or k[-1] == '%cls')
            groups.setdefault((o[0], keep, x.locks, x.hv, x.exc, x.temps, x.caught), []).append(o)
        out = []
        for g in groups.values():
            if len(g) <= 12:
                out += g
                continue
            if self.snap and fr:
                for o in g:
                    self.emit(o[1], 'merge', where, fr, store=dict(o[1].store))
            stores = [o[1].store for o in g]
            keys = set(stores[0])
            for t in stores[1:]:
                keys &= set(t)
            vals = {}
            for k in keys:
                v = stores[0][k]
                vals[k] = v if all(t[k] == v for t in stores) else ('r', 'phi', where['i'], k[:6])
            # a key known on some paths only keeps its abstract default unless it was assigned there
            for t in stores:
                for k in t:
                    if k not in vals and not any(k[:n] in keys for n in range(2, len(k))):
                        vals[k] = ('r', 'phi', where['i'], k[:6])
            f = g[0][1].facts
            for o in g[1:]:
                f = f & o[1].facts
            for k, v in vals.items():
                # not zero on any of the paths
                if v[:2] == ('r', 'phi') and all(k in o[1].store and self.above_zero(o[1].store[k], o[1].facts) for o in g):
                    f = f | {(mk_cmp('<', C0, v), True)}
            rv = g[0][2] if all(o[2] == g[0][2] for o in g) else ('r', 'phi', where['i'], 'ret')
            for o in g:
                o[1].store = dict(vals)
                o[1].facts = f
                out.append((o[0], o[1], rv))
        return out

    def expr_stmt(self, e, st, fr):
        out = []
        base = st.temps
        st.temps = ()
        for s, v in self.ev(e, st, fr):
            for s2 in self.end_full(s, e, fr):
                s2.temps = base
                if s2.exc is not None:
                    out.append(('thr', s2, None))
                else:
                    out.append(('n', s2, None))
        return out

    def end_full(self, st, e, fr):
        """Destroy the temporaries of a full expression (reverse order)."""
        states = [st]
        temps = st.temps
        st.temps = ()
        for path, t in reversed(temps):
            nxt = []
            for s in states:
                nxt += self.destroy(path, t, s, e, fr)
            states = nxt
        return states

    def full(self, e, st, fr, how):
        """Evaluate full-expression e with how(e, st, fr), then destroy its temporaries. -> [(st, v)]"""
        out = []
        base = st.temps
        st.temps = ()
        for s, v in how(e, st, fr):
            for s2 in self.end_full(s, e, fr):
                s2.temps = base
                out.append((s2, v))
        return out

    def x_CompoundStmt(self, s, st, fr):
        return self.seq(s.get('a') or [], st, fr, s)

    def seq(self, stmts, st, fr, where):
        # locals declared directly in this block are destroyed at its end, in reverse order
        states = [('n', st, None)]
        done = []
        declared = []
        for x in stmts:
            nxt = []
            for kind, t, v in states:
                nxt += self.exec(x, t, fr)
            states = []
            seen = set()
            for o in nxt:
                if o[0] == 'n':
                    if o[1].node not in seen:
                        seen.add(o[1].node)
                        states.append(o)
                else:
                    done.append((o, len(declared) + (1 if x and x['k'] == 'DeclStmt' and o[0] != 'thr' else 0)))
            if x and x['k'] == 'DeclStmt':
                declared.append(x)
            if not states:
                break
            if len(states) > (100 if self.snap else 12) and x:
                ms = []
                seen = set()
                for kind, t, v in self.merge_stores(states, x, fr):
                    self.join(t, (fr.ctx, x['i'], 'seq', kind, v, t.key()))
                    if t.node not in seen:
                        seen.add(t.node)
                        ms.append((kind, t, v))
                states = ms
        res = []
        for o in states:
            res += self.leave(declared, o, fr, where)
        for o, n in done:
            res += self.leave(declared[:n] if n <= len(declared) else declared, o, fr, where)
        return res

    def leave(self, declared, o, fr, where):
        vars_ = [v for d in declared for v in d['vars']]
        kind, st, val = o
        states = [st]
        exc = st.exc
        for v in reversed(vars_):
            if v.get('static'):
                continue
            path = ('l', fr.d, v['id'])
            nxt = []
            for s in states:
                if not v.get('ref') and path_has_object(v):
                    saved = s.exc
                    s.exc = None
                    for s2 in self.destroy(path, v['t'], s, where, fr):
                        s2.exc = saved
                        self.forget(path, s2)
                        nxt.append(s2)
                elif v.get('ref') and path in s.store:
                    a = s.store[path]
                    saved = s.exc
                    s.exc = None
                    if a[0] == 'alias' and a[1][0] == 't' and ('ext', v['id']) == a[1][3:5]:
                        for s2 in self.destroy(a[1], v['t'], s, where, fr):
                            s2.exc = saved
                            self.forget(path, s2)
                            self.forget(a[1], s2)
                            nxt.append(s2)
                    else:
                        s.exc = saved
                        self.forget(path, s)
                        nxt.append(s)
                else:
                    self.forget(path, s)
                    nxt.append(s)
            states = nxt
            live = symbols(val) if isinstance(val, tuple) else ()
            for s in states:
                self.forget_uninit(path, s, live)
        return [(kind, s, val) for s in states]

    def forget_uninit(self, path, s, live=()):
        """facts about what a variable contains before it is initialised end with it"""
        if any(y[0] == 'uninit' for x in s.facts for y in symbols(x[0])):
            s.facts = frozenset(x for x in s.facts if all(y[0] != 'uninit' or y[1][:3] != path or y in live for y in symbols(x[0])))

    def x_NullStmt(self, s, st, fr):
        return [('n', st, None)]

    def x_DeclStmt(self, s, st, fr):
        states = [st]
        out = []
        for v in s['vars']:
            nxt = []
            for t in states:
                for t2 in self.declare(v, t, fr):
                    if t2.exc is not None:
                        out.append(('thr', t2, None))
                    else:
                        nxt.append(t2)
            states = nxt
        return out + [('n', t, None) for t in states]

    def declare(self, v, st, fr):
        if not v.get('static'):
            self.forget_uninit(('l', fr.d, v['id']), st)
        if v.get('static'):
            # function-local static: initialised once, shared afterwards
            path = ('g', v['id'])
            self.emit(st, 'staticinit', v if 'l' in v else None, fr, path=path, t=v['t'])
            if v.get('t', '').startswith('const ') and v.get('init'):
                base = st.temps
                st.temps = ()
                r = [s for s, _ in self.full(v['init'], st, fr, lambda e, a, b: self.ev_into(e, path, v['t'], a, b))]
                for s in r:
                    s.temps = base
                return r
            return [st]
        path = ('l', fr.d, v['id'])
        self.forget(path, st)
        init = v.get('init')
        if v.get('ref'):
            if init is None:
                return [st]
            out = []
            for s, r in self.full(init, st, fr, lambda e, a, b: self.ev_loc(e, a, b, ext=v['id'])):
                if s.exc is None:
                    s.store[path] = ('alias', r)
                out.append(s)
            return out
        if init is None:
            return [st]
        return [s for s, _ in self.full(init, st, fr, lambda e, a, b: self.ev_into(e, path, v['t'], a, b))]

    def cond(self, e, st, fr):
        """[(st, bool)] or states with exc."""
        out = []
        base = st.temps
        st.temps = ()
        for s, b in self.cond_raw(e, st, fr):
            for s2 in self.end_full(s, e, fr):
                s2.temps = base
                out.append((s2, b))
        return out

    def cond_raw(self, e, st, fr):
        if e['k'] == 'BinaryOperator' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond_raw(e['a'][0], st, fr):
                if s.exc is not None:
                    out.append((s, None))
                elif b == (e['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond_raw(e['a'][1], s, fr)
            return out
        if e['k'] == 'UnaryOperator' and e['op'] == '!':
            return [(s, (not b) if s.exc is None else None) for s, b in self.cond_raw(e['a'][0], st, fr)]
        if e['k'] == 'ExprWithCleanups':
            return self.cond_raw(e['a'][0], st, fr)
        out = []
        self.itcmp = {}
        for s, v in self.ev_val(e, st, fr):
            if s.exc is not None:
                out.append((s, None))
            else:
                # an iterator compared with the end of its container: one more element, or the loop is over
                c = truth(v)
                neg_ = c[0] == 'not'
                a = c[1] if neg_ else c
                it = self.itcmp.get(a)
                if it is None and a[0] == '==' and len(a) == 3:
                    x, y = a[1], a[2]
                    for x, y in ((x, y), (y, x)):
                        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'it' and y[0] == 'it' and x[1] == y[1] and y[2] == 'end' and (
                                x[2] == 'begin' or isinstance(x[2], tuple) and x[2][0] == 'next'):
                            it = x[1]
                known = it is None or decide(a, s.facts) is not None
                for s2, b in self.fork(v, s):
                    if not known:
                        self.emit(s2, 'iterend' if b != neg_ else 'iter', e, fr, path=it)
                    out.append((s2, b))
        return out

    def x_IfStmt(self, s, st, fr):
        res = []
        pre = [('n', st, None)]
        decl = []
        for part in ('init', 'var'):
            if s.get(part):
                if s[part]['k'] == 'DeclStmt':
                    decl.append(s[part])
                nxt = []
                for k, t, v in pre:
                    if k != 'n':
                        nxt.append((k, t, v))
                    else:
                        nxt += self.exec(s[part], t, fr)
                pre = nxt
        for k, t, v in pre:
            if k != 'n':
                res.append((k, t, v))
                continue
            if s.get('constexpr') and s['cond'].get('cv') is not None:
                br = [(t, bool(s['cond']['cv']))]
            else:
                br = self.cond(s['cond'], t, fr)
            for t2, b in br:
                if t2.exc is not None:
                    res.append(('thr', t2, None))
                    continue
                self.join(t2, (fr.ctx, s['i'], 'br', b, t2.key()))
                if self.snap:
                    self.emit(t2, 'branch', s, fr)
                body = s['then'] if b else s.get('else')
                res += self.exec(body, t2, fr) if body else [('n', t2, None)]
        if decl:
            res = [x for o in res for x in self.leave(decl, o, fr, s)]
        return res

    def loop(self, s, st, fr, cond, body, inc, first_body=False):
        """Fixpoint over the abstract states at the loop head."""
        out = []
        head_seen = set()
        heads = []
        work = [(st, first_body)]
        while work:
            t, skip = work.pop()
            self.gc(t)
            t = self.widen_head(t, heads)
            self.join(t, (fr.ctx, s['i'], 'head', skip, t.key()))
            if t.node in head_seen:
                continue
            head_seen.add(t.node)
            heads.append(t.clone())
            if len(head_seen) > 400:
                raise Limit('loop at %s does not stabilise' % self.p.loc(s.get('l')))
            if skip or cond is None:
                br = [(t, True)]
            else:
                br = self.cond(cond, t, fr)
            for t2, b in br:
                if t2.exc is not None:
                    out.append(('thr', t2, None))
                    continue
                if not b:
                    out.append(('n', t2, None))
                    continue
                self.join(t2, (fr.ctx, s['i'], 'in', t2.key()))
                for k, t3, v in (self.exec(body, t2, fr) if body else [('n', t2, None)]):
                    if k == 'brk':
                        out.append(('n', t3, None))
                    elif k in ('ret', 'thr'):
                        out.append((k, t3, v))
                    else:
                        if inc is not None:
                            for k2, t4, v2 in self.exec(inc, t3, fr):
                                if k2 == 'n':
                                    if self.snap:
                                        self.emit(t4, 'loopend', s, fr, store=dict(t4.store))
                                    self.widen(t4, s, t.store if self.snap else None)
                                    work.append((t4, False))
                                else:
                                    out.append((k2, t4, v2))
                        else:
                            if self.snap:
                                self.emit(t3, 'loopend', s, fr, store=dict(t3.store))
                            self.widen(t3, s, t.store if self.snap else None)
                            work.append((t3, False))
        return out

    def widen_head(self, t, heads):
        """Widening: after a few abstract states at a loop head, forget what differs between them."""
        if len(heads) < 5:
            return t
        hard = len(heads) >= 12
        first = heads[0]
        for h in (heads if hard else heads[:4]):
            for k, v in list(t.store.items()):
                w = h.store.get(k)
                if w == v or v[0] in ('guard', 'mguard', 'alias', 'cls'):
                    continue
                if not hard and v[0] in ('c', 'null', 'ref', 'clos', 'nofn', 'emptyc', 'uninit', 'thread', 'nothread'):
                    continue
                if v[:2] == ('r', 'wid') or v[0] == 'r' and v[1] in self.keep or w is None and v == ('fld', k, 'k'):
                    continue
                t.store[k] = ('r', 'wid', str(k[-1]), k[:3])
            t.facts = frozenset(x for x in t.facts if x in h.facts or self.keep and any(y[0] == 'r' and y[1] in self.keep for y in symbols(x[0]))) if hard else t.facts
        ok = set()
        for v in t.store.values():
            ok |= symbols(v)
        if not hard:
            # facts about values that were just forgotten
            t.facts = frozenset((a, p) for a, p in t.facts if all(
                x in ok or x[0] in ('p',) or x[0] == 'r' and x[1] in self.keep or x[0] == 'fld' and x[2] in ('k', '0', t.hv) for x in symbols(a)))
        return t

    def widen(self, st, s, before=None):
        """Loop-carried integers that grow are abstracted (counts above 3 become unknown)."""
        for k in [k for k, v in st.store.items() if k[-1] == '%key' and v[0] not in ('c', 'fld', 'p', 's')]:
            # the index may name another element in the next iteration
            self.renew(k[:-1] + ('[]',), st)
            st.store.pop(k, None)
        for k, v in list(st.store.items()):
            if before is not None and before.get(k) == v:
                continue
            if v[0] == 'c' and isinstance(v[1], int) and abs(v[1]) > 3 and k[0] in ('l',):
                st.store[k] = ('r', 'widen', s['i'], k[2] if len(k) > 2 else '?')
            elif v[0] == '+' and v[2][0] == 'c' and abs(v[2][1]) > 2:
                st.store[k] = ('r', 'widen', s['i'], str(k[-1]))
            elif depth(v) > 6:
                st.store[k] = ('r', 'widen', s['i'], str(k[-1]))

    def x_WhileStmt(self, s, st, fr):
        return self.loop(s, st, fr, s['cond'], s['body'], None)

    def x_DoStmt(self, s, st, fr):
        return self.loop(s, st, fr, s['cond'], s['body'], None, first_body=True)

    def x_ForStmt(self, s, st, fr):
        res = []
        for k, t, v in (self.exec(s['init'], st, fr) if s.get('init') else [('n', st, None)]):
            if k != 'n':
                res.append((k, t, v))
            else:
                res += self.loop(s, t, fr, s.get('cond'), s['body'], s.get('inc'))
        if s.get('init') and s['init']['k'] == 'DeclStmt':
            res = [x for o in res for x in self.leave([s['init']], o, fr, s)]
        return res

    def x_CXXForRangeStmt(self, s, st, fr):
        out = []
        for st2, r in self.full(s['range'], st, fr, lambda e, a, b: self.ev_loc(e, a, b, ext='range')):
            if st2.exc is not None:
                out.append(('thr', st2, None))
                continue
            out += self.for_each(s, r, st2, fr, lambda t, el: self._range_body(s, t, el, fr))
        return out

    def _range_body(self, s, t, el, fr):
        v = s['var']
        path = ('l', fr.d, v['id'])
        self.forget(path, t)
        if v.get('ref'):
            t.store[path] = ('alias', el)
        else:
            self.copy_obj(el, path, t)
        res = []
        for k, t2, val in self.exec(s['body'], t, fr):
            res += [(k, x, val) for _, x, _ in self.leave([{'vars': [v]}], (k, t2, val), fr, s)]
        return res

    def for_each(self, s, cont, st, fr, body):
        """0..n iterations over the elements of a container path; body(state, element path) -> outcomes."""
        out = []
        seen = set()
        heads = []
        work = [(st, True)]
        ev = {'l': s.get('l'), 'i': s.get('i')}
        while work:
            t, first = work.pop()
            self.gc(t)
            el = cont + ('[]',)
            self.renew(el, t)
            t.store.pop(cont + ('%key',), None)
            t = self.widen_head(t, heads)
            self.join(t, (fr.ctx, s['i'], 'rhead', first, t.key()))
            if t.node in seen:
                continue
            seen.add(t.node)
            heads.append(t.clone())
            if len(seen) > 400:
                raise Limit('range loop does not stabilise')
            empty = mk_cmp('==', ('size', self.load(cont, t)), C0)
            if first:
                br = self.fork(empty, t)
            else:
                br = [(t.clone(), True), (t, False)]
            for t2, b in br:
                if b:
                    self.emit(t2, 'iterend', ev, fr, path=cont)
                    out.append(('n', t2, None))
                    continue
                self.emit(t2, 'iter', ev, fr, path=cont)
                for k, t3, v in body(t2, el):
                    if k == 'brk':
                        out.append(('n', t3, None))
                    elif k in ('ret', 'thr'):
                        out.append((k, t3, v))
                    else:
                        self.emit(t3, 'iterdone', ev, fr, path=cont)
                        self.widen(t3, s)
                        work.append((t3, False))
        return out

    def x_BreakStmt(self, s, st, fr):
        return [('brk', st, None)]

    def x_ContinueStmt(self, s, st, fr):
        return [('cont', st, None)]

    def x_ReturnStmt(self, s, st, fr):
        e = (s.get('a') or [None])[0]
        if e is None:
            return [('ret', st, VOID)]
        rt = fr.fn['ret'] if fr.fn else ''
        out = []
        if rt.endswith('&'):
            res = self.full(e, st, fr, self.ev_loc)
            for t, r in res:
                if t.exc is not None:
                    out.append(('thr', t, None))
                else:
                    out.append(('ret', t, ('ref', r)))
            return out
        if fr.ret is not None and not is_scalar_t(rt) and rt != 'void':
            for t, _ in self.full(e, st, fr, lambda x, a, b: self.ev_into(x, fr.ret, rt, a, b)):
                out.append(('thr', t, None) if t.exc is not None else ('ret', t, ('obj', fr.ret)))
            return out
        for t, v in self.full(e, st, fr, self.ev_val):
            if t.exc is not None:
                out.append(('thr', t, None))
            else:
                out.append(('ret', t, v))
        return out

    def x_SwitchStmt(self, s, st, fr):
        res = []
        pre = self.exec(s['init'], st, fr) if s.get('init') else [('n', st, None)]
        body = s['body']
        items = self.flatten_cases((body.get('a') or []) if body['k'] == 'CompoundStmt' else [body])
        for k, t, v in pre:
            if k != 'n':
                res.append((k, t, v))
                continue
            for t2, cv in self.full(s['cond'], t, fr, self.ev_val):
                if t2.exc is not None:
                    res.append(('thr', t2, None))
                    continue
                cur = [t2]
                default = None
                targets = []
                for idx, (labels, stmt) in enumerate(items):
                    for lb in labels:
                        if lb['k'] == 'DefaultStmt':
                            default = idx
                            continue
                        nxt = []
                        for t3 in cur:
                            val = const(lb['cv']) if lb.get('cv') is not None else ('s', str(lb['i']))
                            for t4, b in self.fork(mk_cmp('==', cv, val), t3):
                                if b:
                                    targets.append((idx, t4, lb))
                                else:
                                    nxt.append(t4)
                        cur = nxt
                for t3 in cur:
                    if s.get('enum') and default is None and self.covers(s, items):
                        continue
                    targets.append((default, t3, None))
                for idx, t3, lb in targets:
                    if idx is None:
                        res.append(('n', t3, None))
                        continue
                    self.join(t3, (fr.ctx, s['i'], 'case', idx, t3.key()))
                    if self.snap:
                        self.emit(t3, 'branch', s, fr)
                    for k2, t4, v2 in self.seq([x[1] for x in items[idx:]], t3, fr, s):
                        res.append(('n' if k2 == 'brk' else k2, t4, v2))
        return res

    def covers(self, s, items):
        en = self.p.enums.get(s['enum'])
        if not en:
            return False
        have = {lb.get('cv') for labels, _ in items for lb in labels}
        return all(e['v'] in have for e in en['e'])

    def flatten_cases(self, stmts):
        items = []
        for x in stmts:
            labels = []
            while x is not None and x['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append(x)
                x = x['body']
            items.append((labels, x))
        return items

    def x_CXXTryStmt(self, s, st, fr):
        out = []
        res = []
        if self.handlers:
            # what the body calls may throw what each handler is there for
            for h in s['h']:
                t = st.clone()
                t.exc = (h.get('cls'), strip_t(h.get('cq') or '') or '?', (s.get('i'),))
                res.append(('thr', t, None))
        for k, t, v in res + list(self.exec(s['body'], st, fr)):
            if k != 'thr':
                out.append((k, t, v))
                continue
            cur = [t]
            for h in s['h']:
                nxt = []
                for t2 in cur:
                    m = self.catch_match(h, t2.exc)
                    if m is None:
                        nxt.append(t2)
                        continue
                    if m == 'maybe':
                        nxt.append(t2.clone())
                    exc = t2.exc
                    t2.exc = None
                    t2.caught = t2.caught + (exc,)
                    self.emit(t2, 'catch', h if h.get('l') else s, fr, exc=exc, all=bool(h.get('all')), cq=h.get('cq'))
                    for k3, t3, v3 in self.exec(h['body'], t2, fr):
                        if t3.caught:
                            t3.caught = t3.caught[:-1]
                        out.append((k3, t3, v3))
                cur = nxt
            for t2 in cur:
                out.append(('thr', t2, None))
        return out

    def catch_match(self, h, exc):
        if h.get('all'):
            return True
        hc, hq = h.get('cls'), strip_t(h.get('cq') or '')
        ec, eq = exc[0], exc[1]
        if eq == '?':
            return 'maybe'
        if hc and (hc == ec or hc in self.p.bases(ec or '')):
            return True
        if hq and hq == eq:
            return True
        if hq == 'std::exception' and (eq or '').startswith('std::'):
            return True
        if hq == 'std::exception' and ec and 'std::exception' in [strip_t(self.p.records.get(b, {}).get('q', '')) for b in self.p.bases(ec)]:
            return True
        if (eq or '').startswith('std::') and hq.startswith('std::'):
            return 'maybe'
        return None

    # ------------------------------------------------------------------ expressions
    def bind(self, res, f):
        out = []
        for s, v in res:
            if s.exc is not None:
                out.append((s, None))
            else:
                out += f(s, v)
        return out

    def ev_val(self, e, st, fr):
        """rvalue of e"""
        if e is None:
            return [(st, VOID)]
        if e.get('lv') or e.get('xv'):
            def ld(s, r):
                if r[0] != 'ref':
                    return [(s, r)]
                return [(s, self.read(r[1], s, e, fr))]
            return self.bind(self.ev(e, st, fr), ld)

        def ob(s, r):
            if r[0] == 'obj':
                return [(s, self.load(r[1], s))]
            return [(s, r)]
        return self.bind(self.ev(e, st, fr), ob)

    def read(self, path, st, e, fr):
        if shared_root(path):
            self.emit(st, 'read', e, fr, path=path, atomic=False)
        return self.load(path, st, e.get('t'))

    def ev_loc(self, e, st, fr, ext=None):
        """location (path) of e; prvalues are materialised"""
        k = e['k']
        if k == 'ExprWithCleanups':
            return self.ev_loc(e['a'][0], st, fr, ext)
        if k == 'MaterializeTemporaryExpr' and ext is not None and e.get('ext'):
            path = ('t', e['i'], fr.d, 'ext', ext)
            self.forget(path, st)
            return [(s, path if s.exc is None else None) for s, _ in self.ev_into(e['a'][0], path, e['t'], st, fr)]
        if e.get('lv') or e.get('xv'):
            def lc(s, r):
                if r[0] == 'ref':
                    return [(s, r[1])]
                if r[0] == 'obj':
                    return [(s, r[1])]
                return [(s, self.mat(r, e, s, fr))]
            return self.bind(self.ev(e, st, fr), lc)

        def pr(s, r):
            if r[0] == 'obj':
                return [(s, r[1])]
            return [(s, self.mat(r, e, s, fr))]
        return self.bind(self.ev(e, st, fr), pr)

    def mat(self, v, e, st, fr):
        path = ('t', e['i'], fr.d)
        self.forget(path, st)
        st.store[path] = v
        return path

    def ev(self, e, st, fr):
        if e is None:
            return [(st, VOID)]
        if e.get('cv') is not None and e['k'] not in ('CXXDefaultArgExpr',):
            return [(st, const(e['cv']))]
        h = getattr(self, 'e_' + e['k'], None)
        if h is None:
            self.unsupported.append((e['k'], e.get('l')))
            return self.e_unknown(e, st, fr)
        return h(e, st, fr)

    def e_unknown(self, e, st, fr):
        subs = [x for x in (e.get('a') or []) if isinstance(x, dict)]
        res = [(st, None)]
        for x in subs:
            res = self.bind(res, lambda s, v, x=x: self.ev(x, s, fr))
        out = []
        for s, _ in res:
            r = ('r', 'unk', e['i'])
            if e.get('lv') or e.get('xv'):
                r = ('ref', ('?', r))
            out.append((s, r))
        return out

    def e_IntegerLiteral(self, e, st, fr):
        return [(st, const(int(e['v'])))]

    def e_CXXBoolLiteralExpr(self, e, st, fr):
        return [(st, const(1 if e['v'] else 0))]

    def e_CharacterLiteral(self, e, st, fr):
        return [(st, const(e['v']))]

    def e_FloatingLiteral(self, e, st, fr):
        v = e['v']
        return [(st, const(int(v)) if v == int(v) else ('s', 'f%r' % v))]

    def e_StringLiteral(self, e, st, fr):
        if e.get('lv'):
            return [(st, ('s', e['v']))]
        return [(st, ('s', e['v']))]

    def e_CXXNullPtrLiteralExpr(self, e, st, fr):
        return [(st, NULL)]

    def e_GNUNullExpr(self, e, st, fr):
        return [(st, NULL)]

    def e_PredefinedExpr(self, e, st, fr):
        return [(st, ('s', '__func__'))]

    def e_SourceLocExpr(self, e, st, fr):
        return [(st, ('s', '__loc__'))]

    def e_CXXThisExpr(self, e, st, fr):
        return [(st, ('ref', fr.this) if fr.this is not None else ('r', 'this'))]

    def e_UnaryExprOrTypeTraitExpr(self, e, st, fr):
        return [(st, ('s', 'sizeof'))]

    def e_CXXScalarValueInitExpr(self, e, st, fr):
        return [(st, NULL if e['t'].endswith('*') else C0)]

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXTypeidExpr(self, e, st, fr):
        return [(st, ('ref', ('g', 'typeid')))]

    def e_ExprWithCleanups(self, e, st, fr):
        i = e['a'][0]
        if not (e.get('lv') or e.get('xv')) and (i.get('lv') or i.get('xv')) and is_scalar_t(e.get('t', '')):
            return self.ev_val(i, st, fr)
        return self.ev(i, st, fr)

    def e_CXXDefaultArgExpr(self, e, st, fr):
        return self.ev(e['a'][0], st, fr)

    e_CXXDefaultInitExpr = e_CXXDefaultArgExpr

    def e_MaterializeTemporaryExpr(self, e, st, fr):
        sub = e['a'][0]
        path = ('t', e['i'], fr.d)
        self.forget(path, st)
        out = []
        for s, _ in self.ev_into(sub, path, e['t'], st, fr):
            if s.exc is None and not is_scalar_t(e['t']):
                s.temps = s.temps + ((path, e['t']),)
            out.append((s, ('ref', path)))
        return out

    def var_path(self, e, fr):
        i = e['id']
        dk = e['dk']
        if dk in ('global', 'staticlocal'):
            return ('g', i)
        if fr.caps is not None and i in fr.caps:
            return fr.caps[i]
        f = fr
        return ('l', fr.d, i)

    def e_DeclRefExpr(self, e, st, fr):
        dk = e['dk']
        if dk == 'enum':
            return [(st, const(e['cv']) if e.get('cv') is not None else ('s', e['n']))]
        if dk == 'func':
            return [(st, ('fnp', e['f']['u']))]
        if dk == 'binding' and 'idx' in e:
            p = ('l', fr.d, e['id'])
            if fr.caps is not None and e['id'] in fr.caps:
                p = fr.caps[e['id']]
            v = st.store.get(p)
            if v is not None and v[0] == 'alias':
                p = v[1]
            return [(st, ('ref', p + (e.get('fn') or ('first', 'second', 'third')[min(e['idx'], 2)],)))]
        if dk in ('binding', 'other'):
            return [(st, ('ref', ('?', e.get('n'))))]
        p = self.var_path(e, fr)
        if p[0] == 'cap':
            # captured by copy: value held by the closure
            return [(st, ('ref', p[1]))]
        v = st.store.get(p)
        if v is not None and v[0] == 'alias':
            p = v[1]
        elif p[0] == 'g' and e.get('gcv') is not None and p not in st.store:
            return [(st, const(e['gcv']))]
        elif p[0] == 'g' and dk == 'global':
            g = self.p.globals.get(e['id'])
            if g and g['t'].startswith('const ') and g.get('init') is not None and p not in st.store and g['init'].get('k') in (
                    'IntegerLiteral', 'CXXBoolLiteralExpr', 'StringLiteral', 'DeclRefExpr', 'CharacterLiteral'):
                if g['init']['k'] != 'DeclRefExpr' or g['init'].get('dk') == 'enum':
                    return [(st, self.ev(g['init'], st, fr)[0][1])]
        return [(st, ('ref', p))]

    def obj_path(self, b, arrow, st, fr):
        """[(st, path)] of the object of a member access."""
        if arrow:
            def f(s, v):
                return [(s, self.deref(v, s, b, fr))]
            return self.bind(self.ev_val(b, st, fr), f)
        return self.ev_loc(b, st, fr)

    def e_MemberExpr(self, e, st, fr):
        if 'm' in e:
            return [(st, ('fnp', e['m']['u']))]

        def f(s, p):
            q = p + (e['fn'],)
            v = s.store.get(q)
            if v is not None and v[0] == 'alias':
                q = v[1]
            return [(s, ('ref', q))]
        return self.bind(self.obj_path(e['b'], e['arrow'], st, fr), f)

    def e_Cast(self, e, st, fr):
        sub = e['a'][0]
        ck = e['ck']
        if ck == 'Dynamic' and (e.get('lv') or e.get('xv')):
            def dr(s, p):
                s2 = s.clone()
                self.emit(s2, 'dyncast', e, fr, path=p, t=e.get('t'), ok=False)
                s2.exc = (None, 'std::bad_cast', (e.get('i'),))
                self.emit(s, 'dyncast', e, fr, path=p, t=e.get('t'), ok=True)
                return [(s2, None), (s, ('ref', p))]
            return self.bind(self.ev_loc(sub, st, fr), dr)
        if e.get('lv') or e.get('xv'):
            return self.bind(self.ev_loc(sub, st, fr), lambda s, p: [(s, ('ref', p))])
        if ck == 'ToVoid':
            return self.bind(self.ev(sub, st, fr), lambda s, v: [(s, VOID)])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            def tb(s, v):
                return [(s, self.tobool(v, sub['t']))]
            return self.bind(self.ev_val(sub, st, fr), tb)
        if ck == 'Dynamic':
            def dc(s, v):
                if v[0] == 'null':
                    return [(s, NULL)]
                a = s.clone()
                tgt = self.deref(v, a)
                self.emit(a, 'dyncast', e, fr, path=tgt, t=e.get('t'), ok=True)
                self.emit(s, 'dyncast', e, fr, path=tgt, t=e.get('t'), ok=False)
                return [(a, ('ref', tgt)), (s, NULL)]
            return self.bind(self.ev_val(sub, st, fr), dc)
        if ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
            def fi(s, v):
                return [(s, v if v[0] == 'c' else ('cast', unconst(e['t']), v))]
            return self.bind(self.ev_val(sub, st, fr), fi)
        if ck == 'IntegralCast':
            t = unconst(e['t'])
            bits = INT_BITS.get(t)
            if bits:
                uns = t.startswith('unsigned')

                def ic(s, v):
                    if v[0] == 'c' and isinstance(v[1], int):
                        n = v[1] & ((1 << bits) - 1)
                        if not uns and n >> (bits - 1):
                            n -= 1 << bits
                        return [(s, ('c', n))]
                    if not uns and v[0] in ('r', 'p', 'fld') and dom.is_unsigned(v):
                        return [(s, ('op', 'signed', v))]
                    if bits < 32 and v[0] == 'r' and v[1] in self.snap:
                        return [(s, ('op', 'narrow', v))]
                    return [(s, v)]
                return self.bind(self.ev_val(sub, st, fr), ic)
        return self.ev_val(sub, st, fr)

    def tobool(self, v, t):
        if t.rstrip().endswith('*') and v[0] in ('fld', 'p', 'r', 'old', 'uninit'):
            return neg(mk_cmp('==', v, NULL))
        if v[0] in ('fld', 'p', 'r', 'old') and unconst(t) != 'bool':
            return neg(mk_cmp('==', v, C0))
        if v[0] == '+':
            return neg(mk_cmp('==', v, C0))
        return truth(v)

    def e_ConditionalOperator(self, e, st, fr):
        out = []
        for s, b in self.cond_raw(e['a'][0], st, fr):
            if s.exc is not None:
                out.append((s, None))
                continue
            sub = e['a'][1] if b else e['a'][2]
            if e.get('lv') or e.get('xv'):
                out += self.bind(self.ev_loc(sub, s, fr), lambda x, p: [(x, ('ref', p))])
            elif is_scalar_t(e['t']) or sub.get('cv') is not None:
                out += self.ev_val(sub, s, fr)
            else:
                out += self.ev(sub, s, fr)
        return out

    def e_UnaryOperator(self, e, st, fr):
        op = e['op']
        sub = e['a'][0]
        if op == '*':
            def d(s, v):
                if v[0] == 'fnp':
                    return [(s, v)]
                return [(s, ('ref', self.deref(v, s, e, fr)))]
            return self.bind(self.ev_val(sub, st, fr), d)
        if op == '&':
            if sub['k'] == 'DeclRefExpr' and sub.get('dk') == 'func' or sub['k'] == 'MemberExpr' and 'm' in sub:
                return self.ev(sub, st, fr)
            return self.bind(self.ev_loc(sub, st, fr), lambda s, p: [(s, ('ref', p))])
        if op == '!':
            out = []
            for s, b in self.cond_raw(sub, st, fr):
                out.append((s, None) if s.exc is not None else (s, const(not b)))
            return out
        if op in ('++', '--'):
            def inc(s, p):
                old = self.read(p, s, e, fr)
                new = wrap(add(old, 1 if op == '++' else -1), e.get('t', ''))
                self.write(p, new, s, e, fr)
                if e.get('post'):
                    return [(s, old)]
                return [(s, ('ref', p) if e.get('lv') else new)]
            return self.bind(self.ev_loc(sub, st, fr), inc)
        if op == '-':
            return self.bind(self.ev_val(sub, st, fr), lambda s, v: [(s, const(-v[1]) if v[0] == 'c' and isinstance(v[1], int) else ('neg', v))])
        if op == '+':
            return self.ev_val(sub, st, fr)
        return self.bind(self.ev_val(sub, st, fr), lambda s, v: [(s, ('op', op, v))])

    def write(self, path, v, st, e, fr, atomic=False, kind='write'):
        if shared_root(path):
            old = st.store.get(path)
            self.emit(st, kind, e, fr, path=path, val=v, old=old, atomic=atomic)
        self.note_cell(path, v, st, e, fr)
        self.setv(path, v, st)

    def note_cell(self, path, v, st, e, fr):
        """a part of an element of a container is written: which key it was reached by, if known"""
        if '[]' not in path:
            return
        n = max(i for i, x in enumerate(path) if x == '[]')
        self.emit(st, 'ewrite', e, fr, path=path, val=v, cont=path[:n], key=st.store.get(path[:n] + ('%key',)))

    def e_BinaryOperator(self, e, st, fr):
        op = e['op']
        a, b = e['a']
        if op == ',':
            return self.bind(self.ev(a, st, fr), lambda s, v: self.ev(b, s, fr))
        if op in ('&&', '||'):
            out = []
            for s, bo in self.cond_raw(e, st, fr):
                out.append((s, None) if s.exc is not None else (s, const(bo)))
            return out
        if op == '=':
            def asg(s, v):
                def st_(s2, p):
                    self.write(p, v, s2, e, fr)
                    return [(s2, ('ref', p))]
                return self.bind(self.ev_loc(a, s, fr), st_)
            return self.bind(self.ev_val(b, st, fr), asg)

        def bin_(s, x):
            def bin2(s2, y):
                if op in ('/', '%') and floatless(a) and floatless(b):
                    self.emit(s2, 'div', e, fr, by=y)
                return [(s2, wrap(self.arith(op, x, y, a.get('t', ''), b.get('t', '')), e.get('t', '')))]
            return self.bind(self.ev_val(b, s, fr), bin2)
        return self.bind(self.ev_val(a, st, fr), bin_)

    def arith(self, op, x, y, ta='', tb=''):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            for v, t in ((x, ta), (y, tb)):
                if 'unsigned' in t and v[0] != 'c':
                    dom.UNSIGNED.add(v)
            return mk_cmp(op, x, y)
        if x[0] == 'c' and y[0] == 'c' and isinstance(x[1], int) and isinstance(y[1], int):
            try:
                if op == '+':
                    return const(x[1] + y[1])
                if op == '-':
                    return const(x[1] - y[1])
                if op == '*':
                    return const(x[1] * y[1])
                if op == '/' and y[1] and 'double' not in ta and 'float' not in ta:
                    return const(int(x[1] / y[1]))
                if op == '%' and y[1]:
                    return const(x[1] % y[1])
                if op == '&':
                    return const(x[1] & y[1])
                if op == '|':
                    return const(x[1] | y[1])
                if op == '<<' and 0 <= y[1] < 64:
                    return const(x[1] << y[1])
                if op == '>>' and 0 <= y[1] < 64:
                    return const(x[1] >> y[1])
            except Exception:
                pass
        if op == '+' and y[0] == 'c':
            return add(x, y[1])
        if op == '+' and x[0] == 'c':
            return add(y, x[1])
        if op == '-' and y[0] == 'c':
            return add(x, -y[1])
        return ('op', op, x, y)

    def e_CompoundAssignOperator(self, e, st, fr):
        op = e['op'][:-1]
        a, b = e['a']

        def rhs(s, y):
            def loc(s2, p):
                old = self.read(p, s2, e, fr)
                if op in ('/', '%') and floatless(a) and floatless(b):
                    self.emit(s2, 'div', e, fr, by=y)
                self.write(p, wrap(self.arith(op, old, y), e.get('t', '')), s2, e, fr)
                return [(s2, ('ref', p))]
            return self.bind(self.ev_loc(a, s, fr), loc)
        return self.bind(self.ev_val(b, st, fr), rhs)

    def e_ArraySubscriptExpr(self, e, st, fr):
        def f(s, v):
            def g(s2, i):
                p = self.deref(v, s2, e, fr) if v[0] != 's' else ('?', v)
                import stdmodel
                stdmodel.at_key(self, p, (i,), s2)
                return [(s2, ('ref', p + ('[]',)))]
            return self.bind(self.ev_val(e['a'][1], s, fr), g)
        base = e['a'][0]
        if base.get('lv') and not base['t'].endswith('*'):
            def h(s2, p, i):
                import stdmodel
                stdmodel.at_key(self, p, (i,), s2)
                return [(s2, ('ref', p + ('[]',)))]
            return self.bind(self.ev_loc(base, st, fr), lambda s, p: self.bind(
                self.ev_val(e['a'][1], s, fr), lambda s2, i: h(s2, p, i)))
        return self.bind(self.ev_val(base, st, fr), f)

    def e_InitListExpr(self, e, st, fr):
        if is_scalar_t(e['t']) and len(e.get('a') or []) == 1:
            return self.ev_val(e['a'][0], st, fr)
        if is_scalar_t(e['t']) and not e.get('a'):
            return [(st, C0)]
        path = ('t', e['i'], fr.d)
        self.forget(path, st)
        return [(s, ('obj', path)) for s, _ in self.ev_into(e, path, e['t'], st, fr)]

    def e_LambdaExpr(self, e, st, fr):
        states = [(st, ())]
        fn = e['fn']
        this = None
        for c in e['caps']:
            nxt = []
            for s, acc in states:
                if s.exc is not None:
                    nxt.append((s, acc))
                    continue
                if c.get('this'):
                    nxt.append((s, acc + (('this', ('alias', fr.this)),)))
                elif c.get('byref'):
                    if c.get('init') is not None:
                        for s2, p in self.ev_loc(c['init'], s, fr):
                            nxt.append((s2, acc + ((c['id'], ('alias', p)),)))
                    else:
                        nxt.append((s, acc + ((c['id'], ('alias', ('?', c['n']))),)))
                else:
                    if c.get('init') is None:
                        nxt.append((s, acc + ((c['id'], ('r', 'cap', c['n'])),)))
                        continue
                    for s2, v in self.ev_val(c['init'], s, fr):
                        nxt.append((s2, acc + ((c['id'], v if v is not None else TOP),)))
            states = nxt
        out = []
        for s, acc in states:
            if s.exc is not None:
                out.append((s, None))
                continue
            self.closures[fn['u']] = fn
            v = ('clos', fn['u'], acc)
            out.append((s, v))
        return out

    def e_CXXThrowExpr(self, e, st, fr):
        a = e.get('a') or []
        if not a:
            exc = st.caught[-1] if st.caught else (None, '?', ())
            self.emit(st, 'throw', e, fr, exc=exc, rethrow=True)
            st.exc = exc
            return [(st, None)]
        out = []
        for s, _ in self.ev(a[0], st, fr):
            if s.exc is None:
                exc = (e.get('cls'), strip_t(e.get('cq') or a[0].get('t', '?')), (e.get('i'),))
                self.emit(s, 'throw', e, fr, exc=exc, rethrow=False)
                s.exc = exc
            out.append((s, None))
        return out

    def e_CXXNewExpr(self, e, st, fr):
        path = ('h', e['i'], fr.d)
        self.forget(path, st)
        t = e['at']
        cls = self.t2rec.get(unconst(t))

        def fin(s):
            if cls:
                s.store[path + ('%cls',)] = ('cls', cls)
            self.emit(s, 'new', e, fr, path=path, t=t, cls=cls)
            return [(s, ('ref', path))]
        if e.get('ini') is None:
            return fin(st)
        return self.bind([(s, None) for s, _ in self.ev_into(e['ini'], path, t, st, fr)], lambda s, _: fin(s))

    def e_CXXDeleteExpr(self, e, st, fr):
        def f(s, v):
            self.emit(s, 'delete', e, fr, val=v, cls=e.get('cls'), path=self.deref(v, s) if v[0] in ('ref', 'fld', 'p', 'r') else None)
            out = []
            if v[0] == 'null':
                return [(s, VOID)]
            p = self.deref(v, s)
            cls = None
            w = s.store.get(p + ('%cls',))
            if w:
                cls = w[1]
            if cls:
                return [(x, VOID) for x in self.destroy_rec(p, cls, s, e, fr)]
            return [(s, VOID)]
        return self.bind(self.ev_val(e['a'][0], st, fr), f)

    # ------------------------------------------------------------------ objects
    def ev_into(self, e, path, t, st, fr):
        """Initialise the object at path with e.  -> [(st, VOID)]"""
        k = e['k']
        if k in ('ExprWithCleanups', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr'):
            return self.ev_into(e['a'][0], path, t, st, fr)
        if k == 'MaterializeTemporaryExpr' and not is_scalar_t(e['t']) and False:
            return self.ev_into(e['a'][0], path, t, st, fr)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = e.get('a') or []
            if e.get('elide') and len(a) == 1 and a[0]['k'] == 'MaterializeTemporaryExpr':
                return self.ev_into(a[0]['a'][0], path, t, st, fr)
            return self.construct(e, path, st, fr)
        if k == 'CXXInheritedCtorInitExpr':
            f = self.p.fn(e['f']['u'])
            args = []
            if f:
                for i, p in enumerate(f['params']):
                    args.append((('P', 'inh', p['n']), None) if p.get('ref') else (None, fr.args[i] if fr.args and i < len(fr.args) else ('p', 'inh', p['n'])))
                return self.invoke(f, path, args, st, fr, e, None, ctor=True)
            avs = tuple(fr.args or ())
            if strip_t(e['f']['q']) == 'std::thread::thread' and avs:
                vs = [self.load(v[1], st) if v[0] in ('ref', 'obj') and not (v[0] == 'ref' and v[1][0] == 'this') else v for v in avs]
                tgt = ('bind', vs[0][1], tuple(vs[1:])) if vs[0][0] == 'fnp' else vs[0]
                ev = self.emit(st, 'spawn', e, fr, path=path, target=tgt)
                self.escapes.append((tgt, 'std::thread', ev, st.clone()))
                self.setv(path, ('thread', e['i']), st)
                return [(st, VOID)]
            self.emit(st, 'construct', e, fr, q=strip_t(e['f']['q']), t=e['t'], path=path, args=avs)
            if avs:
                self.setv(path, ('r', 'ctor', e['i']), st)
            return [(st, VOID)]
        if k == 'InitListExpr':
            return self.init_list(e, path, t, st, fr)
        if k == 'ConditionalOperator':
            out = []
            for s, b in self.cond_raw(e['a'][0], st, fr):
                if s.exc is not None:
                    out.append((s, None))
                else:
                    out += self.ev_into(e['a'][1] if b else e['a'][2], path, t, s, fr)
            return out
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and not e.get('lv') and not e.get('xv') \
                and not is_scalar_t(e['t']):
            def fin(s, v):
                if v[0] == 'obj':
                    if v[1] != path:
                        self.copy_obj(v[1], path, s, move=True)
                else:
                    self.setv(path, v, s)
                return [(s, VOID)]
            return self.bind(self.call(e, st, fr, ret=path), fin)
        if e.get('lv') or e.get('xv'):
            if is_scalar_t(t) or not is_scalar_t(e.get('t', '')) and e['k'] == 'StringLiteral':
                return self.bind(self.ev_val(e, st, fr), lambda s, v: self._set(path, v, s))
            if self.t2rec.get(unconst(e.get('t', ''))) is None or is_scalar_t(e.get('t', '')):
                return self.bind(self.ev_val(e, st, fr), lambda s, v: self._set(path, v, s))

            def cp(s, p):
                self.copy_obj(p, path, s, move=bool(e.get('xv')))
                return [(s, VOID)]
            return self.bind(self.ev_loc(e, st, fr), cp)

        def fin2(s, v):
            if v[0] == 'obj' and v[1] != path:
                self.copy_obj(v[1], path, s, move=True)
            elif v[0] != 'obj':
                self.setv(path, v, s)
            return [(s, VOID)]
        return self.bind(self.ev(e, st, fr), fin2)

    def _set(self, path, v, s):
        self.setv(path, v, s)
        return [(s, VOID)]

    def init_list(self, e, path, t, st, fr):
        cls = self.t2rec.get(unconst(e['t']))
        r = self.p.records.get(cls) if cls else None
        a = e.get('a') or []
        if r and r.get('repo') and r.get('fields') is not None and len(a) <= len(r['fields']):
            res = [(st, VOID)]
            for f, x in zip(r['fields'], a):
                res = self.bind(res, lambda s, _, f=f, x=x: self.ev_into(x, path + (f['name'],), f['t'], s, fr))
            return res
        # array or initializer list: a container with summarised elements
        res = [(st, ())]
        for x in a:
            nxt = []
            for s, acc in res:
                if s.exc is not None:
                    nxt.append((s, acc))
                    continue
                for s2, v in self.ev_val(x, s, fr):
                    nxt.append((s2, acc + (v if v is not None else TOP,)))
            res = nxt
        out = []
        for s, acc in res:
            if s.exc is None:
                self.setv(path, ('list', acc) if len(acc) <= 80 else ('r', 'list', e['i']), s)
            out.append((s, VOID))
        return out

    def e_CXXConstructExpr(self, e, st, fr):
        path = ('t', e['i'], fr.d)
        self.forget(path, st)
        return [(s, ('obj', path)) for s, _ in self.ev_into(e, path, e['t'], st, fr)]

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def copy_obj(self, src, dst, st, move=False):
        if src == dst:
            return
        # pointees are objects of their own: neither forgotten nor copied with the pointer
        m = len(dst)
        for k in [k for k in st.store if k[:m] == dst and '*' not in k[m:]]:
            del st.store[k]
        n = len(src)
        sub = [(k, v) for k, v in st.store.items() if len(k) > n and k[:n] == src and '*' not in k[n:]]
        v = st.store.get(src)
        if v is not None and v[0] == 'alias':
            return self.copy_obj(v[1], dst, st, move)
        if v is None and (not sub or not self._complete(src, sub)):
            v = self.load(src, st)
            if v[0] == 'uninit':
                v = None
        if v is not None:
            st.store[dst] = v
        for k, x in sub:
            st.store[dst + k[n:]] = x
        if move and v is not None:
            m = moved_from(v)
            if m is not None:
                st.store[src] = m

    def _complete(self, src, sub):
        return not shared_root(src)

    def construct(self, e, path, st, fr):
        f = e['f']
        q = f['cq']
        a = e.get('a') or []
        ck = f.get('ck')
        u = f['u']
        cls = e.get('cls')
        rec = self.p.records.get(cls) if cls else None
        if rec and rec.get('repo') and not q.startswith('std::'):
            if rec.get('poly'):
                st.store[path + ('%cls',)] = ('cls', cls)
            fn = self.p.fn(u)
            if fn and fn.get('body') is not None and not (fn.get('defaulted') and ck in ('copy', 'move')):
                return self.call_fn(fn, path, a, st, fr, e, None, ctor=True)
            if ck in ('copy', 'move') and len(a) >= 1:
                return self.bind(self.ev_loc(a[0], st, fr), lambda s, p: self.memberwise(cls, p, path, ck == 'move', s, fr, e))
            # implicit default constructor
            if not a:
                return self.default_fields(cls, path, st, fr, e)
            res = [(st, None)]
            for x in a:
                res = self.bind(res, lambda s, v, x=x: self.ev(x, s, fr))
            return [(s, VOID) for s, _ in res]
        return self.std_construct(e, q, ck, a, path, st, fr)

    def default_fields(self, cls, path, st, fr, e):
        res = [st]
        rec = self.p.records[cls]
        for b in rec.get('bases', []):
            br = self.p.records.get(b['u'])
            if br and br.get('repo'):
                res = [x for s in res for x in [y for y, _ in self.default_fields(b['u'], path, s, fr, e)]]
        for f in rec.get('fields', []):
            nxt = []
            for s in res:
                if s.exc is not None:
                    nxt.append(s)
                    continue
                p = path + (f['name'],)
                if f.get('init'):
                    nxt += [x for x, _ in self.full(f['init'], s, Frame(None, path, fr.d + 1, None, None, fr.ctx + (e['i'],)),
                                                    lambda y, a, b, p=p, f=f: self.ev_into(y, p, f['t'], a, b))]
                else:
                    self.default_value(p, f['t'], s)
                    nxt.append(s)
            res = nxt
        return [(s, VOID) for s in res]

    def default_value(self, p, t, st):
        tt = unconst(t)
        if tt.startswith(CONTAINERS):
            st.store[p] = ('emptyc',)
        elif tt.startswith('std::function<'):
            st.store[p] = ('nofn',)
        elif tt.startswith(('std::unique_ptr<', 'std::shared_ptr<', 'std::weak_ptr<')):
            st.store[p] = NULL
        elif tt.startswith('std::thread'):
            st.store[p] = ('nothread',)

    def memberwise(self, cls, src, dst, move, st, fr, e):
        """implicit / defaulted copy or move of a repository class"""
        if src == dst:
            return [(st, VOID)]
        rec = self.p.records[cls]
        states = [st]
        self.emit(st, 'memberwise', e, fr, src=src, dst=dst, move=move, cls=cls)
        v = st.store.get(src)
        for b in rec.get('bases', []):
            if b['u'] in self.p.records and self.p.records[b['u']].get('repo'):
                states = [x for s in states for x, _ in self.memberwise(b['u'], src, dst, move, s, fr, e)]
            else:
                for s in states:
                    self.std_base(b, src, dst, move, s, fr, e)
        for f in rec.get('fields', []):
            ft = unconst(f['t'])
            sub = self.t2rec.get(ft)
            sr = self.p.records.get(sub) if sub else None
            nxt = []
            for s in states:
                sp, dp = src + (f['name'],), dst + (f['name'],)
                if sr and sr.get('repo') and not ft.startswith('std::'):
                    nxt += [x for x, _ in self.copy_rec(sub, sp, dp, move, s, fr, e)]
                else:
                    self.load(sp, s, f['t'])
                    self.copy_obj(sp, dp, s, move=move and movable_t(ft))
                    self.null_moved(sp, ft, s, move)
                    nxt.append(s)
            states = nxt
        return [(s, VOID) for s in states]

    def std_base(self, b, src, dst, move, st, fr, e):
        """the part of an object that is a standard object keeps its value at the place of the object"""
        q = b.get('q') or ''
        if q != 'std::function' and q + '<' not in CONTAINERS:
            return
        v = self.load(src, st)
        if v[0] == 'obj':
            v = self.load(v[1], st)
        st.store[dst] = v
        if move and src != dst:
            st.store[src] = ('nofn',) if q == 'std::function' else ('moved',)
            if shared_root(src):
                self.emit(st, 'write', e, fr, path=src, val=st.store[src], old=v, atomic=False, mutate='move')

    def null_moved(self, p, t, st, move):
        if move and t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
            st.store[p] = NULL
        elif move and t.startswith('std::function<'):
            st.store[p] = ('nofn',)

    def copy_rec(self, cls, src, dst, move, st, fr, e):
        rec = self.p.records[cls]
        want = 'nmovector' if move else 'ncopyctor'
        how = rec.get(want)
        if move and how in ('none', 'deleted', None):
            how = rec.get('ncopyctor')
            move = False
        if how == 'user':
            for m in rec.get('methods', []):
                if m['kind'] == 'ctor' and len(m['pt']) == 1 and unconst(m['pt'][0].rstrip('&').strip()) == unconst(rec['q']) and \
                        m['pt'][0].endswith('&&') == move:
                    fn = self.p.fn(m['u'])
                    if fn and fn.get('body') is not None:
                        return self.invoke(fn, dst, [(src, None)], st, fr, e, None, ctor=True)
        return self.memberwise(cls, src, dst, move, st, fr, e)

    # ------------------------------------------------------------------ destruction
    def destroy(self, path, t, st, e, fr):
        """Run the destructor of the object at path (type string t)."""
        tt = unconst(t)
        v = st.store.get(path)
        if v is not None and v[0] == 'guard':
            out = [st]
            if v[2] and v[1] is not None:
                out = self.unlock(v[1], v[3], st, e, fr)
            for s in out:
                self.forget(path, s)
            return out
        if v is not None and v[0] == 'mguard':
            out = [st]
            if v[2]:
                for m in reversed(v[1]):
                    out = [x for s in out for x in self.unlock(m, v[3], s, e, fr)]
            for s in out:
                self.forget(path, s)
            return out
        if is_scalar_t(tt):
            self.forget(path, st)
            return [st]
        if tt.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            if v is None:
                v = self.load(path, st)
            if v[0] not in ('null', 'moved', 'uninit'):
                self.emit(st, 'drop_ptr', e, fr, path=path, val=v, t=tt)
            if tt.startswith('std::unique_ptr<') and v[0] == 'ref':
                w = st.store.get(v[1] + ('%cls',))
                if w:
                    out = self.destroy_rec(v[1], w[1], st, e, fr)
                    for s in out:
                        self.forget(path, s)
                    return out
            self.forget(path, st)
            return [st]
        if tt.startswith('std::thread'):
            self.emit(st, 'thread_dtor', e, fr, path=path, val=v)
            self.forget(path, st)
            return [st]
        cls = self.t2rec.get(tt)
        rec = self.p.records.get(cls) if cls else None
        if rec and rec.get('repo') and not tt.startswith('std::'):
            if tt.startswith('(lambda'):
                return [st]
            out = self.destroy_rec(path, cls, st, e, fr)
            for s in out:
                self.forget(path, s)
            return out
        self.forget(path, st)
        return [st]

    def destroy_rec(self, path, cls, st, e, fr):
        rec = self.p.records.get(cls)
        if not rec:
            return [st]
        states = [st]
        d = rec.get('dtor')
        fn = self.p.fn(d) if d else None
        saved = st.store.get(path + ('%cls',))
        if fn and fn.get('body') is not None and rec.get('dtoruser'):
            nxt = []
            for s in states:
                if rec.get('poly'):
                    s.store[path + ('%cls',)] = ('cls', cls)
                for s2, _ in self.invoke(fn, path, [], s, fr, e, None):
                    nxt.append(s2)
            states = nxt
        for f in reversed(rec.get('fields') or []):
            nxt = []
            for s in states:
                p = path + (f['name'],)
                v = s.store.get(p)
                self.emit(s, 'destroy_member', e, fr, path=p, t=f['t'], cls=cls, empty=True if v == ('emptyc',) else decide(mk_cmp('==', ('size', v if v is not None else ('fld', p, 'k')), C0), s.facts)
                          if f['t'].startswith('std::') else None)
                if f['t'].endswith('&'):
                    nxt.append(s)
                    continue
                nxt += self.destroy(p, f['t'], s, e, fr)
            states = nxt
        for b in reversed(rec.get('bases') or []):
            br = self.p.records.get(b['u'])
            if br and br.get('repo') and not br['q'].startswith('std::'):
                nxt = []
                for s in states:
                    nxt += self.destroy_rec(path, b['u'], s, e, fr)
                states = nxt
        return states

    # ------------------------------------------------------------------ locks
    def canon(self, path, st):
        v = st.store.get(path)
        if v is not None and v[0] == 'alias':
            return v[1]
        return path

    def lockable_rec(self, path, e, t):
        return None

    def lock(self, m, mode, st, e, fr, t=''):
        """-> states"""
        cls = self.t2rec.get(unconst(t)) if t else None
        rec = self.p.records.get(cls) if cls else None
        if rec and rec.get('repo') and not unconst(t).startswith('std::'):
            meth = 'lock' if mode == 'x' else 'lock_shared'
            for c in [cls] + self.p.bases(cls):
                for mm in self.p.records.get(c, {}).get('methods', []):
                    if mm['name'] == meth:
                        fn = self.p.fn(mm['u'])
                        if fn and fn.get('body') is not None:
                            return [s for s, _ in self.invoke(fn, m, [], st, fr, e, None)]
        held = [x for x in st.locks if x[0] == m]
        self.emit(st, 'acquire', e, fr, m=m, mode=mode, mt=unconst(t))
        if held:
            if held[0][2] >= 3 and 'recursive' not in t:
                return []          # the thread is blocked for ever
            st.locks = tuple((x[0], x[1], x[2] + 1) if x[0] == m else x for x in st.locks)
            return [st]
        self.havoc(st, '%s' % (e.get('i'),))
        st.locks = st.locks + ((m, mode, 1),)
        self.emit(st, 'acquired', e, fr, m=m, mode=mode, hv=st.hv)
        return [st]

    def unlock(self, m, mode, st, e, fr, t=''):
        cls = self.t2rec.get(unconst(t)) if t else None
        if cls is None:
            w = st.store.get(m + ('%lk',))
            if w:
                cls = w[1]
        rec = self.p.records.get(cls) if cls else None
        if rec and rec.get('repo') and not rec['q'].startswith('std::'):
            meth = 'unlock' if mode == 'x' else 'unlock_shared'
            for c in [cls] + self.p.bases(cls):
                for mm in self.p.records.get(c, {}).get('methods', []):
                    if mm['name'] == meth:
                        fn = self.p.fn(mm['u'])
                        if fn and fn.get('body') is not None:
                            return [s for s, _ in self.invoke(fn, m, [], st, fr, e, None)]
        held = [x for x in st.locks if x[0] == m]
        if not held:
            self.emit(st, 'unlock_unheld', e, fr, m=m, mode=mode)
            return [st]
        if held[0][2] > 1:
            self.emit(st, 'release_rec', e, fr, m=m, mode=mode)
            st.locks = tuple((x[0], x[1], x[2] - 1) if x[0] == m else x for x in st.locks)
            return [st]
        self.emit(st, 'release', e, fr, m=m, mode=mode, hmode=held[0][1], hv=st.hv, store=self.snapshot(st))
        st.locks = tuple(x for x in st.locks if x[0] != m)
        return [st]

    def snapshot(self, st):
        return {k: v for k, v in st.store.items() if shared_root(k) and len(k) <= 6}

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, e, st, fr):
        return self.call(e, st, fr, None)

    e_CXXMemberCallExpr = e_CallExpr
    e_CXXOperatorCallExpr = e_CallExpr
    e_UserDefinedLiteral = e_CallExpr

    def call(self, e, st, fr, ret):
        self.callsites += 1
        k = e['k']
        f = e.get('f')
        a = e.get('a') or []
        if f is None:
            # call through a pointer
            c = e.get('c')
            if c is None:
                return self.e_unknown(e, st, fr)
            return self.bind(self.ev_val(c, st, fr), lambda s, v: self.call_value(v, a, s, fr, e, ret))
        q = f['q']
        if k == 'CXXMemberCallExpr':
            c = e['c']
            if c['k'] != 'MemberExpr':
                return self.e_unknown(e, st, fr)
            if c['b']['k'] == 'CXXThisExpr' and c['b'].get('a') == [] and fr.this is not None:
                return self.member(e, f, fr.this, c, a, st, fr, ret)
            return self.bind(self.obj_path(c['b'], c['arrow'], st, fr),
                             lambda s, p: self.member(e, f, p, c, a, s, fr, ret))
        if k == 'CXXOperatorCallExpr':
            if f.get('cq') is not None and f.get('cls') and not f.get('static'):
                if e['op'] == '=' and len(a) == 2:
                    # right operand first
                    return self.assign(e, f, a, st, fr, ret)
                return self.bind(self.ev_loc(a[0], st, fr),
                                 lambda s, p: self.member(e, f, p, a[0], a[1:], s, fr, ret))
            return self.free(e, f, a, st, fr, ret)
        return self.free(e, f, a, st, fr, ret)

    def member(self, e, f, obj, c, a, st, fr, ret):
        v = st.store.get(obj)
        if v is not None and v[0] == 'alias':
            obj = v[1]
        cq = f['cq'] or ''
        if cq.startswith('(lambda') or v is not None and v[0] in ('clos', 'bind') and '(lambda' in f['q']:
            return self.call_value(self.load(obj, st), a, st, fr, e, ret)
        if '(anonymous class)' in f['q'] or '(lambda' in f['q']:
            return self.call_value(self.load(obj, st), a, st, fr, e, ret)
        if cq.startswith('std::') or cq.startswith('__gnu') or cq == 'std':
            return self.std_member(e, f, obj, c, a, st, fr, ret)
        u = f['u']
        bt = ''
        if c.get('k') == 'MemberExpr':
            bt = c['b'].get('t', '')
        else:
            bt = c.get('t', '')
        if f.get('virt') and not (c.get('k') == 'MemberExpr' and c.get('qual')):
            cls = None
            w = st.store.get(obj + ('%cls',))
            if w:
                cls = w[1]
            elif obj in self.dyn:
                cls = self.dyn[obj]
            elif obj[0] in ('l', 'g') or (obj and obj[-1] not in ('*', '[]') and obj[0] in ('this', 'h', 't')):
                cls = self.t2rec.get(unconst(bt.rstrip('*').strip()))
            if cls:
                u = self.p.find_override(cls, u)
            else:
                # unknown dynamic class: single implementation in the program, or opaque
                impls = self.impls(u)
                if len(impls) == 1 and impls[0] == u:
                    pass
                else:
                    return self.opaque_call(e, f, obj, a, st, fr, ret, virt=True)
        fn = self.p.fn(u)
        if fn is not None and f.get('ck') in ('copyassign', 'moveassign') and (fn.get('defaulted') or fn.get('implicit')) and any(
                b.get('q') == 'std::function' for b in self.p.records.get(fn.get('cls'), {}).get('bases', [])):
            return self.assign_members(e, f, obj, a, st, fr)
        if fn is None or fn.get('body') is None or self.opaque(fn) or self.rec_depth(fr, u) >= 3 or len(fr.ctx) > 40:
            if f.get('defaulted') and f.get('ck') in ('copyassign', 'moveassign') or (
                    e.get('op') == '=' and f.get('cls') in self.p.records):
                return self.assign_members(e, f, obj, a, st, fr)
            if fn is not None and fn['u'] != f.get('u') and fn.get('q'):
                f = dict(f, u=fn['u'], q=fn['q'])
            return self.opaque_call(e, f, obj, a, st, fr, ret)
        return self.call_fn(fn, obj, a, st, fr, e, ret)

    def impls(self, u):
        c = getattr(self.p, '_impls', None)
        if c is None:
            c = self.p._impls = {}
        if u not in c:
            out = set()
            o = self.p.method_owner(u)
            m = self.p.method(u)
            if m and not m.get('pure'):
                out.add(u)
            if o:
                for d in self.p.derived_from(o['u']):
                    out.add(self.p.find_override(d, u))
            c[u] = sorted(out)
        return c[u]

    def rec_depth(self, fr, u):
        n = 0
        f = fr
        while f is not None:
            if f.fn is not None and f.fn['u'] == u:
                n += 1
            f = f.up
        return n

    def assign(self, e, f, a, st, fr, ret):
        cq = f['cq'] or ''
        if cq.startswith('std::'):
            return self.std_assign(e, f, a, st, fr)

        return self.bind(self.ev_loc(a[0], st, fr), lambda s, p: self.member(e, f, p, a[0], a[1:], s, fr, ret))

    def assign_members(self, e, f, obj, a, st, fr):
        """implicit / defaulted copy or move assignment"""
        cls = f.get('cls')
        move = bool(a and (a[0].get('xv') or not a[0].get('lv')))
        rec = self.p.records.get(cls)
        if move and rec and rec.get('nmoveassign') in ('none', 'deleted', None):
            move = False

        def f2(s, src):
            self.emit(s, 'memberwise_assign', e, fr, src=src, dst=obj, move=move, cls=cls)
            states = self._assign_rec(cls, src, obj, move, s, fr, e)
            return [(x, ('ref', obj)) for x in states]
        return self.bind(self.ev_loc(a[0], st, fr), f2)

    def _assign_rec(self, cls, src, dst, move, st, fr, e):
        rec = self.p.records.get(cls)
        states = [st]
        if not rec:
            self.copy_obj(src, dst, st, move)
            return [st]
        for b in rec.get('bases', []):
            if self.p.records.get(b['u'], {}).get('repo'):
                states = [x for s in states for x in self._assign_rec(b['u'], src, dst, move, s, fr, e)]
            else:
                for s in states:
                    old = self.load(dst, s)
                    self.std_base(b, src, dst, move, s, fr, e)
                    if shared_root(dst):
                        self.emit(s, 'write', e, fr, path=dst, val=s.store.get(dst), old=old, atomic=False, mutate='assign')
        for fl in rec.get('fields', []):
            ft = unconst(fl['t'])
            nxt = []
            for s in states:
                sp, dp = src + (fl['name'],), dst + (fl['name'],)
                old = s.store.get(dp)
                if old is not None and old[0] == 'guard' and old[2] and old[1] is not None:
                    res = self.unlock(old[1], old[3], s, e, fr)
                else:
                    res = [s]
                if ft.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
                    for s2 in res:
                        ov = self.load(dp, s2, fl['t'])
                        if ov[0] not in ('null', 'moved'):
                            self.emit(s2, 'drop_ptr', e, fr, path=dp, val=ov, t=ft)
                sub = self.t2rec.get(ft)
                if sub and self.p.records[sub].get('repo') and not ft.startswith('std::'):
                    res = [x for s2 in res for x in self._assign_rec(sub, sp, dp, move, s2, fr, e)]
                else:
                    for s2 in res:
                        val = self.load(sp, s2, fl['t'])
                        if shared_root(dp):
                            self.emit(s2, 'write', e, fr, path=dp, val=val, old=s2.store.get(dp), atomic=False)
                        self.note_cell(dp, val, s2, e, fr)
                        self.copy_obj(sp, dp, s2, move=move and movable_t(ft))
                        self.null_moved(sp, ft, s2, move)
                nxt += res
            states = nxt
        return states

    def args(self, fn_params, a, st, fr, pts=None):
        """Evaluate arguments for parameters: list of (refpath|None, value|None, argpath) per state."""
        res = [(st, ())]
        n = len(a)
        for i in range(n):
            x = a[i]
            if fn_params is not None and i < len(fn_params):
                pt = fn_params[i]['t']
                isref = fn_params[i].get('ref') or pt.endswith('&')
            elif pts is not None and i < len(pts):
                pt = pts[i]
                isref = pt.endswith('&')
            else:
                pt = x.get('t', '')
                isref = bool(x.get('lv') or x.get('xv'))
            nxt = []
            for s, acc in res:
                if s.exc is not None:
                    nxt.append((s, acc))
                    continue
                if isref:
                    for s2, p in self.ev_loc(x, s, fr):
                        nxt.append((s2, acc + ((p, None, x),)))
                elif is_scalar_t(pt) or x.get('cv') is not None:
                    for s2, v in self.ev_val(x, s, fr):
                        nxt.append((s2, acc + ((None, v, x),)))
                else:
                    # by-value class parameter: construct into a temporary slot
                    p = ('t', x['i'], fr.d, 'arg')
                    self.forget(p, s)
                    for s2, _ in self.ev_into(x, p, pt, s, fr):
                        nxt.append((s2, acc + ((None, ('argobj', p, pt), x),)))
            res = nxt
        return res

    def call_fn(self, fn, this, a, st, fr, e, ret, ctor=False, caps=None):
        out = []
        for s, vals in self.args(fn['params'], a, st, fr):
            if s.exc is not None:
                out.append((s, None))
                continue
            out += self.invoke(fn, this, [(r, v) for r, v, _ in vals], s, fr, e, ret, ctor, caps)
        return out

    def invoke(self, fn, this, vals, st, fr, e, ret, ctor=False, caps=None):
        """Run fn's body in a new frame; vals: [(ref path | None, value | None)]."""
        d = fr.d + 1 if fr else 1
        ctx = (fr.ctx if fr else ()) + ((e.get('i') if e else 0),)
        nf = Frame(fn, this, d, caps, ret, ctx, up=fr)
        nf.args = [v if v is not None else ('ref', r) for r, v in vals]
        self.inlined.add(fn['u'])
        temps = st.temps
        st.temps = ()
        # stale locals of an earlier call at this depth
        for k in [k for k in st.store if k[0] == 'l' and k[1] == d]:
            del st.store[k]
        if fn['params']:
            for prm, (r, v) in zip(fn['params'], vals):
                p = ('l', d, prm['id'])
                if r is not None:
                    st.store[p] = ('alias', r)
                elif v is not None and v[0] == 'argobj':
                    self.copy_obj(v[1], p, st)
                    self.forget(v[1], st)
                else:
                    st.store[p] = v if v is not None else TOP
        self.emit(st, 'enter', e, nf, name=fn['sq'], this=this, u=fn['u'])
        if ret is None and not is_scalar_t(fn['ret']) and not fn['ret'].endswith('&') and fn['ret'] != 'void' and not ctor and fn.get('kind') not in ('ctor', 'dtor'):
            nf.ret = ('t', (e or {}).get('i', 0), d, 'ret')
            self.forget(nf.ret, st)
        outs = [('n', st, None)]
        if ctor or fn.get('kind') == 'ctor':
            outs = self.ctor_inits(fn, this, st, nf, e)
        res = []
        for k, s, v in outs:
            if k != 'n':
                res.append((k, s, v))
            elif fn.get('body') is not None:
                res += self.exec(fn['body'], s, nf)
            else:
                res.append((k, s, v))
        out = []
        for k, s, v in res:
            # by-value class parameters die at return
            states = [s]
            for prm in reversed(fn['params'] or []):
                p = ('l', d, prm['id'])
                if not prm.get('ref') and not is_scalar_t(prm['t']):
                    nxt = []
                    for s2 in states:
                        ex = s2.exc
                        s2.exc = None
                        for s3 in self.destroy(p, prm['t'], s2, fn['body'] or e, nf):
                            s3.exc = ex
                            nxt.append(s3)
                    states = nxt
            for s2 in states:
                for kk in [kk for kk in s2.store if kk[0] == 'l' and kk[1] >= d]:
                    del s2.store[kk]
                s2.temps = temps
                if k == 'thr':
                    if fn.get('noexcept') and not (fn.get('kind') == 'dtor' and False):
                        self.emit(s2, 'terminate', e, nf, exc=s2.exc)
                        continue
                    self.emit(s2, 'leave', e, nf, name=fn['sq'], exc=s2.exc, u=fn['u'])
                    out.append((s2, None))
                else:
                    self.emit(s2, 'leave', e, nf, name=fn['sq'], val=v, exc=None, u=fn['u'])
                    if v is None:
                        v2 = VOID
                    else:
                        v2 = v
                    if nf.ret is not None and v2[0] == 'obj' and ret is None:
                        # temporary result object
                        s2.temps = s2.temps + ((nf.ret, fn['ret']),)
                    out.append((s2, v2))
        # merge identical results
        ded = []
        seen = set()
        for s2, v in out:
            self.gc(s2, v)
            key = (ctx, 'callret', v, s2.key())
            self.join(s2, key)
            if s2.node in seen:
                continue
            seen.add(s2.node)
            ded.append((s2, v))
        return ded

    def ctor_inits(self, fn, this, st, nf, e):
        outs = [st]
        done = []
        rec = self.p.records.get(fn.get('cls'))
        for ini in fn.get('inits') or []:
            nxt = []
            for s in outs:
                if 'field' in ini:
                    path = this + (ini['field'],)
                    fld = self.p.field(fn.get('cls'), ini['field'])
                    t = fld['t'] if fld else ''
                    if ini.get('e') is None:
                        self.default_value(path, t, s)
                        nxt.append(s)
                        continue
                    if t.endswith('&'):
                        for s2, p in self.full(ini['e'], s, nf, self.ev_loc):
                            if s2.exc is None:
                                s2.store[path] = ('alias', p)
                            (nxt if s2.exc is None else done).append(s2)
                    else:
                        for s2, _ in self.full(ini['e'], s, nf, lambda x, a, b: self.ev_into(x, path, t, a, b)):
                            (nxt if s2.exc is None else done).append(s2)
                    for s2 in nxt:
                        if s2.node == 0 or True:
                            pass
                else:
                    ee = ini.get('e')
                    if ee is None:
                        nxt.append(s)
                        continue
                    for s2, _ in self.full(ee, s, nf, lambda x, a, b: self.ev_into(x, this, '', a, b)):
                        if s2.exc is None and rec and rec.get('poly') and 'deleg' not in ini:
                            s2.store[this + ('%cls',)] = ('cls', fn['cls'])
                        (nxt if s2.exc is None else done).append(s2)
            outs = nxt
            if 'field' in ini:
                for s in outs:
                    self.emit(s, 'init_member', ini.get('e') or e, nf, path=this + (ini['field'],), cls=fn.get('cls'), val=s.store.get(this + (ini['field'],)))
        return [('n', s, None) for s in outs] + [('thr', s, None) for s in done]

    def call_value(self, v, a, st, fr, e, ret, argvals=None):
        """Call a callable value."""
        if v[0] == 'ref':
            v = self.load(v[1], st)
        if v[0] == 'clos':
            fn = self.closures.get(v[1])
            if fn is None or fn.get('body') is None or self.rec_depth(fr, fn['u']) >= 3:
                return self.opaque_call(e, {'q': 'closure', 'u': v[1]}, None, a, st, fr, ret)
            fn.setdefault('sq', strip_t(fn['q']))
            caps = {}
            this = None
            for name, val in v[2]:
                if name == 'this':
                    this = val[1]
                elif val[0] == 'alias':
                    caps[name] = ('cap', val[1])
                else:
                    cp = ('l', fr.d + 1, 'cap:' + name)
                    caps[name] = ('cap', cp)
            if this is None:
                this = fr.this if False else None

            def go(s, vals):
                res = self.invoke2(fn, this, vals, s, fr, e, ret, caps, v[2])
                return res
            if argvals is not None:
                return go(st, argvals)
            out = []
            for s, vals in self.args(fn['params'], a, st, fr):
                if s.exc is not None:
                    out.append((s, None))
                else:
                    out += go(s, [(r, x) for r, x, _ in vals])
            return out
        if v[0] == 'bind':
            fn = self.p.fn(v[1])
            if fn is not None and fn.get('body') is not None and self.rec_depth(fr, fn['u']) < 3:
                vals = []
                this = None
                bound = list(v[2])
                if fn.get('kind') == 'method' and not fn.get('mstatic') and bound:
                    this = self.deref(bound[0], st)
                    bound = bound[1:]

                def go2(s, avals):
                    vs = []
                    for i, prm in enumerate(fn['params']):
                        if i < len(bound) and bound[i][0] == 'ph':
                            j = bound[i][1] - 1
                            r, x = avals[j] if j < len(avals) else (None, TOP)
                        elif i < len(bound):
                            r, x = None, bound[i]
                        elif i < len(avals):
                            r, x = avals[i]
                        else:
                            r, x = None, TOP
                        if prm.get('ref') and r is None:
                            r = ('?', 'bindarg')
                        elif not prm.get('ref') and r is not None and x is None:
                            x = self.load(r, s)
                            r = None
                        vs.append((r if prm.get('ref') else None, x))
                    return self.invoke(fn, this, vs, s, fr, e, ret)
                if argvals is not None:
                    return go2(st, argvals)
                out = []
                for s, vals in self.args(None, a, st, fr):
                    if s.exc is not None:
                        out.append((s, None))
                    else:
                        out += go2(s, [(r, x) for r, x, _ in vals])
                return out
        if v[0] == 'fnp':
            fn = self.p.fn(v[1])
            if fn is not None and fn.get('body') is not None and fn.get('kind') == 'func' and self.rec_depth(fr, fn['u']) < 3:
                if argvals is not None:
                    return self.invoke(fn, None, argvals, st, fr, e, ret)
                return self.call_fn(fn, None, a, st, fr, e, ret)
        # unknown callable: user code
        out = []
        res = self.args(None, a, st, fr) if argvals is None else [(st, [(r, x, None) for r, x in argvals])]
        for s, vals in res:
            if s.exc is not None:
                out.append((s, None))
                continue
            avs = tuple(x if x is not None else self.load(r, s) for r, x, _ in vals)
            t = e.get('t', '') if e else ''
            ev = self.emit(s, 'cbcall', e, fr, val=v, args=avs, t=t, store=self.snapshot(s), argsub=tuple(
                {q[len(x[1]):]: y for q, y in s.store.items() if q[:len(x[1])] == x[1]} if x and x[0] in ('argobj', 'obj') and isinstance(x[1], tuple) else None for x in avs))
            pure = unconst(t) == 'bool'
            if self.may_throw(ev):
                s2 = s.clone()
                s2.exc = (None, '?', (e.get('i'),))
                out.append((s2, None))
            if not pure:
                self.user_code(s, e, fr)
                rv = ('r', 'cb', e.get('i'))
            else:
                rv = ('r', 'app', v if depth(v) < 5 else 'f', avs if depth(avs) < 5 else 'x')
            if e and (e.get('lv') or e.get('xv')):
                rv = ('ref', ('?', rv))
            out.append((s, rv))
        return out

    def user_code(self, st, e, fr):
        """Unknown user code runs: it may call the public API of objects whose locks are not held here."""
        if not st.locks:
            self.havoc(st, 'u%s' % e.get('i'))

    def invoke2(self, fn, this, vals, st, fr, e, ret, caps, capvals):
        d = fr.d + 1
        for k in [k for k in st.store if k[0] == 'l' and k[1] == d]:
            del st.store[k]
        saved = []
        for name, val in capvals:
            if name != 'this' and val[0] != 'alias':
                saved.append((('l', d, 'cap:' + name), val))
        # invoke() clears locals of this depth, so install captured values through a wrapper
        return self._invoke_caps(fn, this, vals, st, fr, e, ret, caps, saved)

    def _invoke_caps(self, fn, this, vals, st, fr, e, ret, caps, saved):
        # captured copies live in pseudo-temporaries that survive the frame set-up
        ren = {}
        for p, v in saved:
            q = ('t', 'cap', fr.d + 1, p[2])
            st.store[q] = v
            ren[p] = q
        caps = {k: (('cap', ren.get(c[1], c[1])) if c[0] == 'cap' else c) for k, c in caps.items()}
        out = self.invoke(fn, this, vals, st, fr, e, ret, caps=caps)
        for s, v in out:
            for q in ren.values():
                self.forget(q, s)
        return out

    def opaque_call(self, e, f, obj, a, st, fr, ret, virt=False):
        out = []
        for s, vals in self.args(None, a, st, fr, f.get('pt')):
            if s.exc is not None:
                out.append((s, None))
                continue
            out += self.opaque_done(e, f, obj, vals, s, fr, ret, virt)
        return out

    def forget_results(self, name, s):
        """only the last result of each function that is remembered, and those still in use"""
        live = set()
        for x in s.store.values():
            live |= {y for y in symbols(x) if y[0] == 'r' and y[1] == name}
        s.facts = frozenset(x for x in s.facts if all(y[0] != 'r' or y[1] != name or y in live for y in symbols(x[0])))

    def opaque_done(self, e, f, obj, vals, s, fr, ret, virt=False):
        out = []
        avs = []
        for r, x, node in vals:
            v = x if x is not None else self.load(r, s)
            if v[0] == 'argobj':
                v = self.load(v[1], s)
            avs.append(v)
        ev = self.emit(s, 'call', e, fr, q=f['q'], sq=strip_t(f['q']), u=f.get('u'), obj=obj, args=tuple(avs),
                       refs=tuple(r for r, _, _ in vals), virt=virt, const=f.get('const'))
        if self.snap and f['q'].split('::')[-1] in self.snap:
            ev['store'] = dict(s.store)
        for v in avs:
            if v[0] in ('clos', 'bind', 'fnp'):
                self.escapes.append((v, strip_t(f['q']), ev, s.clone()))
        if self.may_throw(ev):
            s2 = s.clone()
            s2.exc = (None, '?', (e.get('i'),))
            out.append((s2, None))
        if f.get('noret'):
            self.emit(s, 'noreturn', e, fr, q=f['q'])
            return out
        # arguments passed by non-const reference may be modified
        pts = f.get('pt') or []
        for i, (r, x, node) in enumerate(vals):
            if r is not None and i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const ') and not pts[i].endswith('&&'):
                self.forget(r, s)
                s.store[r] = ('r', 'out', e.get('i'), i)
        t = e.get('t', '')
        if t == 'void':
            v = VOID
        else:
            v = ('r', strip_t(f['q']).split('::')[-1], e.get('i'))
            if v[1] in self.keep:
                self.forget_results(v[1], s)
            if obj is None and all(symval(x) for x in avs) and depth(tuple(avs)) < 4:
                pass
            if is_scalar_t(t) and 'unsigned' in t:
                dom.UNSIGNED.add(v)
        if e.get('lv') or e.get('xv'):
            v = ('ref', ('?', v))
        elif ret is not None and t != 'void' and not is_scalar_t(t):
            self.setv(ret, v, s)
            v = ('obj', ret)
        out.append((s, v))
        return out

    def free(self, e, f, a, st, fr, ret):
        q = strip_t(f['q'])
        if q.startswith('std::') or q.startswith('__gnu') or q.startswith('operator'):
            from stdmodel import std_free
            return std_free(self, e, f, q, a, st, fr, ret)
        fn = self.p.fn(f['u'])
        if fn is None or fn.get('body') is None or self.opaque(fn) or self.rec_depth(fr, f['u']) >= 3 or len(fr.ctx) > 40:
            return self.opaque_call(e, f, None, a, st, fr, ret)
        return self.call_fn(fn, None, a, st, fr, e, ret)

    def std_member(self, e, f, obj, c, a, st, fr, ret):
        from stdmodel import std_member
        return std_member(self, e, f, obj, c, a, st, fr, ret)

    def std_assign(self, e, f, a, st, fr):
        from stdmodel import std_assign
        return std_assign(self, e, f, a, st, fr)

    def std_construct(self, e, q, ck, a, path, st, fr):
        from stdmodel import std_construct
        return std_construct(self, e, q, ck, a, path, st, fr)

    # ------------------------------------------------------------------ entry points
    def run(self, fn, this=('this',), cls=None, facts=frozenset(), setup=None, args=None):
        """Explore fn from an arbitrary state of its object.  Exits are appended to graph.exits."""
        st = St()
        st.facts = facts
        if this is not None and cls is not None:
            st.store[this + ('%cls',)] = ('cls', cls)
        for pth, c in self.dyn.items():
            st.store[pth + ('%cls',)] = ('cls', c)
        if setup:
            setup(self, st)
        vals = []
        for i, prm in enumerate(fn['params']):
            if args and prm['n'] in args:
                vals.append(args[prm['n']])
            elif args and i in args:
                vals.append(args[i])
            elif prm.get('ref'):
                vals.append((('P', prm['n'] or 'arg%d' % i), None))
            else:
                v = ('p', prm['n'] or 'arg%d' % i)
                self._typed(v, prm['t'])
                vals.append((None, v))
        if fn.get('mstatic') or fn.get('kind') == 'func':
            this = None
        e = {'i': 'entry', 'l': fn['loc']}
        fn.setdefault('sq', strip_t(fn['q']))
        is_ctor = fn.get('kind') == 'ctor'
        ret = ('X', 'ret') if (not is_scalar_t(fn['ret']) and not fn['ret'].endswith('&') and fn['ret'] != 'void' and fn.get('kind') not in ('ctor', 'dtor')) else None
        root = Frame(None, None, 0, None, None, ())
        if fn.get('kind') == 'dtor' and cls:
            outs = [(s, VOID) for s in self.destroy_rec(this, cls, st, e, root)]
        else:
            outs = self.invoke(fn, this, vals, st, root, e, ret, ctor=is_ctor)
        for s, v in outs:
            kind = 'throw' if s.exc is not None else 'return'
            self.emit(s, 'exit', e, None, kind=kind, exc=s.exc, val=v, store=self.snapshot(s))
            self.g.exits.append((s.node, kind, s, v))
        return self.g

    def run_special(self, kind, cls, setup=None):
        """Implicit or defaulted copy/move construction or assignment of cls: this <- other."""
        st = St()
        dst, src = ('this',), ('P', 'other')
        rec = self.p.records[cls]
        if setup:
            setup(self, st)
        e = {'i': 'entry', 'l': rec['loc']}
        root = Frame({'u': 'special', 'q': rec['q'] + '::' + kind, 'name': kind, 'loc': rec['loc']}, dst, 0, None, None, ())
        move = kind.startswith('move')
        if kind.endswith('assign'):
            outs = [(s, ('ref', dst)) for s in self._assign_rec(cls, src, dst, move, st, root, e)]
        else:
            outs = self.memberwise(cls, src, dst, move, st, root, e)
        for s, v in outs:
            k = 'throw' if s.exc is not None else 'return'
            self.emit(s, 'exit', e, None, kind=k, exc=s.exc, val=v, store=self.snapshot(s))
            self.g.exits.append((s.node, k, s, v))
        return self.g

    def run_closure(self, v, st, setup=None, args=None):
        """Explore a closure (thread entry, registered callback) as an entry point of its own."""
        s = St()
        s.store = {k: x for k, x in st.store.items() if k[-1] == '%cls' or x[0] == 'alias'}
        if setup:
            setup(self, s)
        root = Frame(None, None, 0, None, None, ())
        e = {'i': 'entry', 'l': None}
        if v[0] == 'clos':
            fn = self.closures.get(v[1])
        else:
            fn = self.p.fn(v[1])
        if fn is None:
            return None
        e['l'] = fn['loc']
        vals = []
        for i, prm in enumerate(fn['params']):
            if prm.get('ref'):
                vals.append((('P', prm['n'] or 'arg%d' % i), None))
            else:
                vals.append((None, ('p', prm['n'] or 'arg%d' % i)))
        outs = self.call_value(v, None, s, root, e, None, argvals=vals)
        for s, x in outs:
            kind = 'throw' if s.exc is not None else 'return'
            self.emit(s, 'exit', e, None, kind=kind, exc=s.exc, val=x, store=self.snapshot(s))
            self.g.exits.append((s.node, kind, s, x))
        return self.g


def symval(x):
    return isinstance(x, tuple)


def path_has_object(v):
    return not is_scalar_t(v['t'])


def movable_t(t):
    return t.startswith(('std::unique_lock', 'std::shared_lock', 'std::unique_ptr', 'std::shared_ptr', 'std::thread', 'std::function',
                         'std::weak_ptr', 'std::vector', 'std::map', 'std::list', 'std::set', 'std::queue', 'std::basic_string'))


def moved_from(v):
    if v[0] == 'guard':
        return ('guard', None, 0, v[3])
    if v[0] == 'mguard':
        return ('guard', None, 0, v[3])
    if v[0] in ('thread',):
        return ('nothread',)
    if v[0] in ('c', 's'):
        return None
    return ('moved',)
