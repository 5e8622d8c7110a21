"""Models of the standard library operations the repository uses."""
import re

import dom
from dom import C0, C1, NULL, TOP, VOID, add, const, mk_cmp, neg, truth
from facts import strip_t
import interp as I


def placeholder(v):
    return v[0] == 'ph'


# ---------------------------------------------------------------- durations
def dur_unit(t):
    """(numerator, denominator, 'i'|'f') of a duration type in seconds, or None"""
    m = re.match(r'std::chrono::duration<([^<>]+?)(?:, std::ratio<(\d+)(?:, (\d+))?>)?>$', I.unconst(t.replace('&', '').strip()))
    if not m:
        return None
    return (int(m.group(2) or 1), int(m.group(3) or 1), 'f' if m.group(1).strip() in ('double', 'float', 'long double') else 'i')


def chrono_value(self, e, t, vals, s):
    vs = []
    for r, v, _ in vals:
        v = v if v is not None else self.load(r, s)
        if v[0] in ('obj', 'argobj'):
            v = self.load(v[1], s)
        vs.append(v)
    if len(vs) == 1 and dom.depth(vs[0]) < 7:
        u = dur_unit(t)
        if u is not None:
            su = dur_unit((vals[0][2] or {}).get('t', ''))
            return ('durc' if su is not None else 'durn', u, vs[0])
        if t.startswith('std::chrono::time_point'):
            return vs[0]
    return ('r', 'chrono', tuple(vs))


# ---------------------------------------------------------------- construction
def std_construct(self, e, q, ck, a, path, st, fr):
    t = I.unconst(e['t'])
    if q in I.GUARDS or t.startswith(tuple(g + '<' for g in I.GUARDS)):
        return guard_construct(self, e, q, ck, a, path, st, fr)
    if ck in ('copy', 'move') and len(a) == 1:
        x = a[0]

        def cm(s, src):
            self.copy_obj(src, path, s, move=(ck == 'move'))
            if ck == 'move':
                if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
                    self.setv(src, NULL, s)
                elif t.startswith('std::function<'):
                    self.setv(src, ('nofn',), s)
            return [(s, VOID)]
        return self.bind(self.ev_loc(x, st, fr), cm)
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<')):
        if not a:
            return self._set(path, NULL, st)

        def sp(s, v):
            if v[0] == 'obj':
                v = self.load(v[1], s)
            if v[0] == 'argobj':
                v = self.load(v[1], s)
            self.setv(path, v, s)
            self.emit(s, 'own', e, fr, path=path, val=v, t=t, nargs=len(a), arg=a[0], node=e)
            return [(s, VOID)]
        # converting move / raw pointer
        x = a[0]

        def first(s, v):
            def rest(s2, vals):
                s2_ = s2
                src = vals[0]
                r = sp(s2_, src[1] if src[1] is not None else self.load(src[0], s2_))
                if src[0] is not None and x.get('xv'):
                    self.setv(src[0], NULL, s2_)
                return r
            return v
        out = []
        for s, vals in self.args(None, a, st, fr, None):
            if s.exc is not None:
                out.append((s, None))
                continue
            r, v, node = vals[0]
            if v is None:
                v = self.load(r, s)
                if x.get('xv') and x.get('k') != 'MaterializeTemporaryExpr':
                    self.setv(r, NULL, s)
                elif x.get('xv'):
                    self.setv(r, NULL, s)
            out += sp(s, v)
        return out
    if t.startswith('std::function<'):
        if not a:
            return self._set(path, ('nofn',), st)

        def fn_(s, v):
            if v[0] in ('null',):
                v = ('nofn',)
            if v[0] == 'obj':
                v = self.load(v[1], s)
            self.setv(path, v, s)
            return [(s, VOID)]
        return self.bind(self.ev_val(a[0], st, fr), fn_)
    if t.startswith('std::thread'):
        if not a:
            return self._set(path, ('nothread',), st)
        return spawn(self, e, a, path, st, fr)
    if t.startswith(('std::atomic', 'std::__atomic_base')):
        if not a:
            return [(st, VOID)]
        return self.bind(self.ev_val(a[0], st, fr), lambda s, v: self._set(path, v, s))
    if t.startswith('std::condition_variable') or t.startswith(tuple(I.MUTEX)) or t.startswith('std::chrono'):
        if not a:
            return [(st, VOID)]
        out = []
        for s, vals in self.args(None, a, st, fr):
            if s.exc is None:
                self.setv(path, chrono_value(self, e, t, vals, s) if t.startswith('std::chrono') else ('r', t, e['i']), s)
            out.append((s, VOID))
        return out
    if t.startswith('std::pair<') and len(a) == 2 and len(e['f'].get('pt') or ()) == 2:
        return make_pair(self, e, a, path, st, fr)
    if t.startswith(I.CONTAINERS) or t.startswith('std::basic_string'):
        if not a:
            return self._set(path, ('emptyc',), st)
        out = []
        for s, vals in self.args(None, a, st, fr):
            if s.exc is not None:
                out.append((s, None))
                continue
            avs = [v if v is not None else self.load(r, s) for r, v, _ in vals]
            avs = [self.load(v[1], s) if v[0] in ('argobj', 'obj') else v for v in avs]
            if t.startswith('std::basic_string') and avs and avs[0][0] == 's':
                self.setv(path, avs[0], s)
            elif avs and avs[0][0] == 'list':
                self.setv(path, avs[0], s)
            elif ck in ('copy', 'move'):
                self.setv(path, avs[0], s)
            else:
                avs = [x for x in avs if x[0] not in ('uninit', 'emptyc')]
                v = ('r', 'ctor', tuple(avs), e['i']) if dom.depth(tuple(avs)) < 5 else ('r', 'ctor', e['i'])
                self.setv(path, v, s)
            self.emit(s, 'cconstruct', e, fr, path=path, t=t, args=tuple(avs))
            out.append((s, VOID))
        return out
    # anything else: opaque construction, closures handed over escape
    if len(a) == 1 and 'iterator' in t:
        # the conversion of an iterator to the constant one
        def conv(s, v):
            return self._set(path, v, s) if v[0] == 'it' else self._set(path, ('r', 'ctor', e['i']), s)
        return self.bind(self.ev_val(a[0], st, fr), conv)
    out = []
    for s, vals in self.args(None, a, st, fr, e['f'].get('pt')):
        if s.exc is not None:
            out.append((s, None))
            continue
        avs = []
        for r, v, _ in vals:
            v = v if v is not None else self.load(r, s)
            if v[0] in ('argobj', 'obj'):
                v = self.load(v[1], s)
            avs.append(v)
        ev = self.emit(s, 'construct', e, fr, q=strip_t(q), t=t, path=path, args=tuple(avs))
        for v in avs:
            if v[0] in ('clos', 'bind', 'fnp'):
                self.escapes.append((v, strip_t(q), ev, s.clone()))
        if self.may_throw(ev):
            s2 = s.clone()
            s2.exc = (None, '?', (e.get('i'),))
            out.append((s2, None))
        if a:
            self.setv(path, ('r', 'ctor', e['i']), s)
        out.append((s, VOID))
    return out


def guard_construct(self, e, q, ck, a, path, st, fr):
    t = I.unconst(e['t'])
    mode = 's' if t.startswith('std::shared_lock') else 'x'
    if not a:
        self.setv(path, ('guard', None, 0, mode), st)
        return [(st, VOID)]
    if ck in ('copy', 'move'):
        def mv(s, src):
            v = self.load(src, s)
            if v[0] == 'fld':
                # a guard of unknown state: treat as an owned symbolic lock
                pass
            self.setv(path, v, s)
            self.setv(src, ('guard', None, 0, mode), s)
            return [(s, VOID)]
        return self.bind(self.ev_loc(a[0], st, fr), mv)
    tags = [x for x in a if 'defer_lock_t' in x.get('t', '') or 'adopt_lock_t' in x.get('t', '') or 'try_to_lock_t' in x.get('t', '')]
    ms = [x for x in a if x not in tags]
    tag = ''
    if tags:
        tt = tags[0]['t']
        tag = 'defer' if 'defer' in tt else 'adopt' if 'adopt' in tt else 'try'
    if t.startswith('std::scoped_lock') and len(ms) > 1:
        res = [(st, ())]
        for m in ms:
            nxt = []
            for s, acc in res:
                if s.exc is not None:
                    nxt.append((s, acc))
                    continue
                for s2, p in self.ev_loc(m, s, fr):
                    nxt.append((s2, acc + ((p, m['t']),)))
            res = nxt
        out = []
        for s, acc in res:
            if s.exc is not None:
                out.append((s, None))
                continue
            sts = [s]
            if tag != 'adopt':
                for p, mt in acc:
                    nn = []
                    for x in sts:
                        self.emit(x, 'multilock', e, fr, ms=tuple(y[0] for y in acc))
                        nn += self.lock(p, mode, x, e, fr, mt)
                    sts = nn
            for x in sts:
                self.setv(path, ('mguard', tuple(y[0] for y in acc), 1, mode), x)
                out.append((x, VOID))
        return out

    def one(s, p):
        mt = ms[0]['t']
        cls = self.t2rec.get(I.unconst(mt))
        s.store[p + ('%lk',)] = ('cls', cls) if cls else ('cls', None)
        if cls is None or not self.p.records[cls].get('repo'):
            s.store.pop(p + ('%lk',), None)
        out = []
        if tag == 'defer':
            self.setv(path, ('guard', p, 0, mode), s)
            return [(s, VOID)]
        if tag == 'adopt':
            self.setv(path, ('guard', p, 1, mode), s)
            return [(s, VOID)]
        timed = len(ms) > 1
        if tag == 'try' or timed:
            s2 = s.clone()
            self.setv(path, ('guard', p, 0, mode), s2)
            out.append((s2, VOID))
        for x in self.lock(p, mode, s, e, fr, mt):
            if x.exc is None:
                self.setv(path, ('guard', p, 1, mode), x)
            out.append((x, VOID))
        return out
    return self.bind(self.ev_loc(ms[0], st, fr), one)


def spawn(self, e, a, path, st, fr):
    out = []
    for s, vals in self.args(None, a, st, fr):
        if s.exc is not None:
            out.append((s, None))
            continue
        avs = []
        for r, v, _ in vals:
            v = v if v is not None else self.load(r, s)
            if v[0] in ('argobj', 'obj'):
                v = self.load(v[1], s)
            avs.append(v)
        if avs and avs[0][0] == 'fnp':
            tgt = ('bind', avs[0][1], tuple(avs[1:]))
        else:
            tgt = avs[0] if avs else TOP
        v = ('thread', e['i'])
        self.setv(path, v, s)
        ev = self.emit(s, 'spawn', e, fr, path=path, target=tgt)
        self.escapes.append((tgt, 'std::thread', ev, s.clone()))
        out.append((s, VOID))
    return out


# ---------------------------------------------------------------- assignment of std objects
def std_assign(self, e, f, a, st, fr):
    cq = f['cq']
    t = I.unconst(a[0].get('t', ''))
    if t.startswith(tuple(g + '<' for g in I.GUARDS)):
        def g(s, src):
            v = self.load(src, s)

            def h(s2, dst):
                old = self.load(dst, s2)
                sts = [s2]
                if old[0] == 'guard' and old[2] and old[1] is not None:
                    sts = self.unlock(old[1], old[3], s2, e, fr)
                out = []
                for x in sts:
                    self.setv(dst, v, x)
                    if src != dst:
                        self.setv(src, ('guard', None, 0, 'x'), x)
                    out.append((x, ('ref', dst)))
                return out
            return self.bind(self.ev_loc(a[0], s, fr), h)
        return self.bind(self.ev_loc(a[1], st, fr), g)
    if t.startswith(('std::atomic', 'std::__atomic_base')):
        def at(s, v):
            def at2(s2, p):
                self.emit(s2, 'atomic_write', e, fr, path=p)
                self.write(p, v, s2, e, fr, atomic=True)
                return [(s2, v)]
            return self.bind(self.ev_loc(a[0], s, fr), at2)
        return self.bind(self.ev_val(a[1], st, fr), at)
    smart = t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<'))
    fnlike = t.startswith('std::function<')
    thr = t.startswith('std::thread')
    cont = t.startswith(I.CONTAINERS)

    def rhs(s, rv):
        srcpath, v = rv

        def lhs(s2, p):
            old = self.load(p, s2)
            if smart and not t.startswith('std::weak') and old[0] not in ('null', 'moved', 'uninit'):
                self.emit(s2, 'drop_ptr', e, fr, path=p, val=old, t=t)
            if thr:
                self.emit(s2, 'thread_assign', e, fr, path=p, old=old)
            v2 = v
            if fnlike and v2 in (NULL,):
                v2 = ('nofn',)
            if cont and v2[0] in ('uninit',):
                v2 = ('emptyc',)
            if I.shared_root(p):
                self.emit(s2, 'write', e, fr, path=p, val=v2, old=old, atomic=False, mutate='assign' if cont else None)
            self.note_cell(p, v2, s2, e, fr)
            if srcpath is not None and (cont or not smart and not fnlike and not thr):
                self.copy_obj(srcpath, p, s2, move=bool(a[1].get('xv')))
            self.setv(p, v2, s2)
            if srcpath is not None and srcpath != p and a[1].get('xv'):
                self.setv(srcpath, NULL if smart else ('nofn',) if fnlike else ('nothread',) if thr else ('moved',), s2)
            if thr and v2[0] == 'thread' and srcpath is not None:
                self.emit(s2, 'thread_store', e, fr, path=p, val=v2)
            return [(s2, ('ref', p))]
        return self.bind(self.ev_loc(a[0], s, fr), lhs)
    x = a[1]
    if x.get('lv') or x.get('xv'):
        def ld(s, p):
            if p is None:
                return rhs(s, (None, TOP))
            if isinstance(p, tuple) and I.shared_root(p):
                self.emit(s, 'read', x, fr, path=p, atomic=False)
            return rhs(s, (p, self.load(p, s)))
        if x['k'] == 'StringLiteral':
            return rhs(st, (None, ('s', x['v'])))
        return self.bind(self.ev_loc(x, st, fr), ld)
    return self.bind(self.ev_val(x, st, fr), lambda s, v: rhs(s, (None, v)))


CONST_READ = {'size', 'empty', 'count', 'find', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'at', 'length', 'c_str', 'data',
              'substr', 'compare', 'rbegin', 'rend', 'find_first_of', 'rfind', 'find_last_of', 'find_first_not_of', 'find_last_not_of',
              'lower_bound', 'upper_bound', 'equal_range', 'str', 'top', 'capacity', 'max_size', 'contains', 'operator[]', 'crbegin', 'crend',
              'good', 'eof', 'fail', 'bad'}


def cont_value(self, p, s):
    return self.load(p, s)


def std_member(self, e, f, obj, c, a, st, fr, ret):
    cq = f['cq'] or ''
    q = strip_t(f['q'])
    name = q.split('::')[-1]
    if name.startswith('operator') and len(name) > 8 and name[8] == ' ':
        name = 'conv'
    if cq in I.GUARDS:
        return guard_member(self, e, name, obj, a, st, fr)
    if cq in I.MUTEX_BASES:
        mt = None
        if name in ('lock', 'lock_shared'):
            return [(s, VOID) for s in self.lock(obj, 's' if 'shared' in name else 'x', st, e, fr, mutex_t(self, e, c, cq))]
        if name in ('unlock', 'unlock_shared'):
            return [(s, VOID) for s in self.unlock(obj, 's' if 'shared' in name else 'x', st, e, fr)]
        if name.startswith('try_lock'):
            s2 = st.clone()
            out = [(s2, C0)]
            self.emit(st, 'trylock', e, fr, m=obj)
            held = any(x[0] == obj for x in st.locks)
            if held:
                st.locks = tuple((x[0], x[1], x[2] + 1) if x[0] == obj else x for x in st.locks)
            else:
                self.havoc(st, e['i'])
                st.locks = st.locks + ((obj, 's' if 'shared' in name else 'x', 1),)
            out.append((st, C1))
            return out
    if cq in I.CV:
        return cv_member(self, e, name, obj, a, st, fr)
    if cq in I.ATOMIC:
        return atomic_member(self, e, name, f, obj, a, st, fr)
    if cq in I.SMART:
        return smart_member(self, e, name, cq, f, obj, a, st, fr, ret, c)
    if cq == 'std::function':
        return function_member(self, e, name, obj, a, st, fr, ret)
    if cq == 'std::thread' or cq == 'std::jthread':
        return thread_member(self, e, name, obj, a, st, fr)
    ot = I.unconst((c['b'] if c.get('k') == 'MemberExpr' else c).get('t', '').rstrip('*').strip())
    if cq.startswith('std::') and (ot.startswith(I.CONTAINERS) or cq in (
            'std::vector', 'std::map', 'std::set', 'std::list', 'std::queue', 'std::deque', 'std::unordered_map', 'std::basic_string',
            'std::array', 'std::unordered_set', 'std::multimap', 'std::stack')):
        return cont_member(self, e, name, cq, f, obj, a, st, fr, ret)
    if 'terator' in cq:
        return iter_member(self, e, name, obj, a, st, fr)
    # unknown std member: pure read of the object unless non-const
    out = []
    for s, vals in self.args(None, a, st, fr, f.get('pt')):
        if s.exc is not None:
            out.append((s, None))
            continue
        avs = tuple(self.load(v[1], s) if v is not None and v[0] in ('argobj', 'obj') else v if v is not None else self.load(r, s) for r, v, _ in vals)
        old = self.load(obj, s)
        ev = self.emit(s, 'stdcall', e, fr, q=q, obj=obj, args=avs, const=f.get('const'), ov=old)
        for v in avs:
            if v[0] in ('clos', 'bind', 'fnp'):
                self.escapes.append((v, q, ev, s.clone()))
        if self.may_throw(ev):
            s2 = s.clone()
            s2.exc = (None, '?', (e.get('i'),))
            out.append((s2, None))
        if I.shared_root(obj):
            if f.get('const'):
                self.emit(s, 'read', e, fr, path=obj, atomic=False)
            else:
                self.emit(s, 'write', e, fr, path=obj, val=('r', name, e['i']), old=old, atomic=False, mutate=name)
        t = e.get('t', '')
        v = ('r', name, e['i'], old, avs) if dom.depth((old, avs)) < 5 else ('r', name, e['i'])
        if f.get('const') and dom.depth((old, avs)) < 5:
            v = ('r', name, old, avs)
        if cq == 'std::chrono::duration' and name == 'count' and dom.depth(old) < 8:
            v = ('cnt', dur_unit(ot) or ot, old)
        elif cq == 'std::chrono::time_point' and name == 'time_since_epoch' and dom.depth(old) < 8:
            v = ('epoch', old)
        if not f.get('const'):
            self.setv(obj, ('r', 'mut', e['i']), s)
        if t == 'void':
            v = VOID
        elif e.get('lv') or e.get('xv'):
            v = ('ref', obj) if I.unconst(t) == ot else ('ref', ('?', v))
        elif ret is not None and not I.is_scalar_t(t):
            self.setv(ret, v, s)
            v = ('obj', ret)
        out.append((s, v))
    return out


def mutex_t(self, e, c, cq):
    return cq


def guard_member(self, e, name, obj, a, st, fr):
    v = self.load(obj, st)
    if name in ('lock', 'unlock', 'try_lock', 'release', 'owns_lock', 'conv', 'mutex', 'try_lock_for', 'try_lock_until', 'operator bool'):
        if v[0] == 'fld':
            # member guard of an arbitrary object: state unknown -> owned lock on a symbolic mutex
            m = obj + ('mutex',)
            if name in ('owns_lock', 'conv', 'operator bool'):
                return [(st, ('r', 'owns', v))]
            return [(st, ('r', name, e['i']))]
        if v[0] != 'guard':
            return [(st, ('r', name, e['i']))]
        _, m, owns, mode = v
        if name == 'lock':
            if m is None or owns:
                self.emit(st, 'guard_misuse', e, fr, path=obj, what='lock() on a guard that %s' % ('already owns' if owns else 'has no mutex'))
                return [(st, VOID)]
            out = []
            for s in self.lock(m, mode, st, e, fr):
                self.setv(obj, ('guard', m, 1, mode), s)
                out.append((s, VOID))
            return out
        if name.startswith('try_lock'):
            s2 = st.clone()
            out = [(s2, C0)]
            for s in self.lock(m, mode, st, e, fr):
                self.setv(obj, ('guard', m, 1, mode), s)
                out.append((s, C1))
            return out
        if name == 'unlock':
            if not owns or m is None:
                self.emit(st, 'guard_misuse', e, fr, path=obj, what='unlock() on a guard that owns nothing')
                return [(st, VOID)]
            out = []
            for s in self.unlock(m, mode, st, e, fr):
                self.setv(obj, ('guard', m, 0, mode), s)
                out.append((s, VOID))
            return out
        if name == 'release':
            self.setv(obj, ('guard', None, 0, mode), st)
            return [(st, ('ref', m) if m else NULL)]
        if name == 'mutex':
            return [(st, ('ref', m) if m else NULL)]
        return [(st, const(1 if owns else 0))]
    if name == 'swap' and a:
        def sw(s, p):
            x, y = self.load(obj, s), self.load(p, s)
            self.setv(obj, y, s)
            self.setv(p, x, s)
            return [(s, VOID)]
        return self.bind(self.ev_loc(a[0], st, fr), sw)
    return [(st, ('r', name, e['i']))]


def cv_member(self, e, name, obj, a, st, fr):
    if name in ('notify_one', 'notify_all'):
        self.emit(st, 'notify', e, fr, cv=obj, all=(name == 'notify_all'))
        return [(st, VOID)]
    if name not in ('wait', 'wait_for', 'wait_until'):
        return [(st, VOID)]
    timed = name != 'wait'
    npred = len(a) - (2 if timed else 1)

    def after(s, vals):
        lk = vals[0][0]
        g = self.load(lk, s)
        m, mode = (g[1], g[3]) if g[0] == 'guard' else (None, 'x')
        tmo = None
        if timed:
            r, v, _ = vals[1]
            tmo = v if v is not None else self.load(r, s)
        pred = None
        if npred > 0:
            r, v, _ = vals[-1]
            pred = v if v is not None else self.load(r, s)
            if pred[0] in ('argobj', 'obj'):
                pred = self.load(pred[1], s)
        out = []

        def sleep(x):
            self.emit(x, 'cvwait', e, fr, cv=obj, m=m, timed=timed, haspred=pred is not None, timeout=tmo,
                      owned=bool(g[0] == 'guard' and g[2]), store=self.snapshot(x), hv=x.hv)
            cnt = [y for y in x.locks if y[0] == m]
            self.emit(x, 'release', e, fr, m=m, mode=mode, hmode=mode, hv=x.hv, store=self.snapshot(x), cv=obj)
            x.locks = tuple(y for y in x.locks if y[0] != m)
            self.emit(x, 'asleep', e, fr, cv=obj, m=m, timed=timed)
            self.havoc(x, e['i'])
            x.locks = x.locks + tuple(cnt)
            self.emit(x, 'acquired', e, fr, m=m, mode=mode, hv=x.hv, cv=obj)
            return x

        def evp(x):
            """[(state, bool)]"""
            r = []
            if pred[0] in ('clos', 'bind', 'fnp'):
                for y, pv in self.call_value(pred, [], x, fr, e_pred(e), None, argvals=[]):
                    if y.exc is not None:
                        r.append((y, None))
                    else:
                        r += self.fork(pv, y)
            else:
                r += self.fork(('r', 'app', pred, (x.hv,)), x)
            return r
        if pred is None:
            sleep(s)
            if timed:
                # cv_status::timeout == 1 ; no_timeout == 0
                s2 = s.clone()
                self.emit(s2, 'awake', e, fr, cv=obj, why='timeout')
                self.emit(s, 'awake', e, fr, cv=obj, why='notified')
                return [(s2, C1), (s, C0)]
            self.emit(s, 'awake', e, fr, cv=obj, why='notified')
            return [(s, VOID)]
        self.emit(s, 'predcheck', e, fr, cv=obj, m=m)
        for x, b in evp(s):
            if x.exc is not None:
                out.append((x, None))
                continue
            if b:
                self.emit(x, 'awake', e, fr, cv=obj, why='predicate')
                out.append((x, C1 if timed else VOID))
                continue
            y = sleep(x)
            for z, b2 in evp(y):
                if z.exc is not None:
                    out.append((z, None))
                elif b2:
                    self.emit(z, 'awake', e, fr, cv=obj, why='predicate')
                    out.append((z, C1 if timed else VOID))
                else:
                    # predicate still false: sleeps again (same abstract state), or the time expired
                    if timed:
                        w = z.clone()
                        self.emit(w, 'awake', e, fr, cv=obj, why='timeout')
                        out.append((w, C0))
                    self.emit(z, 'resleep', e, fr, cv=obj, m=m, timed=timed, haspred=True, timeout=tmo,
                              owned=bool(g[0] == 'guard' and g[2]), store=self.snapshot(z), hv=z.hv)
        return out
    out = []
    for s, vals in self.args(None, a, st, fr):
        if s.exc is not None:
            out.append((s, None))
        else:
            out += after(s, vals)
    return out


def e_pred(e):
    return {'i': (e['i'], 'pred'), 'l': e.get('l'), 't': 'bool', 'k': 'pred'}


def atomic_member(self, e, name, f, obj, a, st, fr):
    def rd(s):
        if I.shared_root(obj):
            if not s.locks and not self.still and not self.is_const_path(obj, s):
                self.refresh(obj, s, e['i'], e.get('t'))
            self.emit(s, 'read', e, fr, path=obj, atomic=True)
        return self.load(obj, s, e.get('t'))
    if name in ('load', 'conv', 'test', 'operator bool', 'operator int') or name.startswith('operator unsigned') or name.startswith('operator __'):
        return [(st, rd(st))]
    if name in ('operator++', 'operator--'):
        old = rd(st)
        new = add(old, 1 if name.endswith('++') else -1)
        self.write(obj, new, st, e, fr, atomic=True)
        post = len(a) == 1
        return [(st, old if post else new)]
    if name in ('clear',):
        self.write(obj, C0, st, e, fr, atomic=True)
        return [(st, VOID)]
    if name == 'test_and_set':
        old = rd(st)
        self.write(obj, C1, st, e, fr, atomic=True, kind='xchg')
        return [(st, old)]
    if name.startswith('compare_exchange'):
        def ce(s, exp):
            def ce2(s2, des):
                cur = rd(s2)
                ev = self.load(exp, s2)
                out = []
                for x, b in self.fork(mk_cmp('==', cur, ev), s2):
                    if b:
                        self.emit(x, 'xchg', e, fr, path=obj, val=des, old=cur, atomic=True)
                        self.setv(obj, des, x)
                        out.append((x, C1))
                    else:
                        self.setv(exp, cur, x)
                        out.append((x, C0))
                return out
            return self.bind(self.ev_val(a[1], s, fr), ce2)
        return self.bind(self.ev_loc(a[0], st, fr), ce)

    def withv(s, v):
        if name in ('store', 'operator='):
            self.write(obj, v, s, e, fr, atomic=True)
            return [(s, v)]
        old = rd(s)
        if name == 'exchange':
            if I.shared_root(obj):
                self.emit(s, 'xchg', e, fr, path=obj, val=v, old=old, atomic=True)
            self.setv(obj, v, s)
            return [(s, old)]
        op = {'fetch_add': '+', 'fetch_sub': '-', 'fetch_or': '|', 'fetch_and': '&', 'operator+=': '+', 'operator-=': '-', 'operator|=': '|',
              'operator&=': '&'}.get(name)
        if op is None:
            return [(s, ('r', name, e['i']))]
        new = self.arith(op, old, v)
        self.write(obj, new, s, e, fr, atomic=True)
        return [(s, new if name.startswith('operator') else old)]
    if a:
        return self.bind(self.ev_val(a[0], st, fr), withv)
    return [(st, rd(st))]


def smart_member(self, e, name, cq, f, obj, a, st, fr, ret, c):
    v = self.load(obj, st)
    if I.shared_root(obj):
        self.emit(st, 'read', e, fr, path=obj, atomic=False)
    if v[0] in ('uninit', 'emptyc'):
        v = NULL
    weak = 'weak' in cq
    if name == 'lock' and weak:
        # expired, or a live shared pointer to the same object
        s2 = st.clone()
        self.emit(s2, 'weak_lock', e, fr, path=obj, ok=False)
        self.emit(st, 'weak_lock', e, fr, path=obj, ok=True, val=v)
        tgt = v if v[0] != 'null' else ('r', 'weak', e['i'])
        live = ('ref', self.deref(v, st)) if v[0] != 'null' else tgt
        out = []
        for s, val in ((s2, NULL), (st, live)):
            if ret is not None:
                self.setv(ret, val, s)
                out.append((s, ('obj', ret)))
            else:
                out.append((s, val))
        return out if v[0] != 'null' else out[:1]
    if name == 'expired':
        return [(st, ('r', 'expired', e['i']))]
    if name == 'operator->':
        return [(st, v)]
    if name == 'operator*':
        return [(st, ('ref', self.deref(v, st, e, fr)))]
    if name == 'get':
        return [(st, v)]
    if name in ('operator bool', 'conv'):
        return [(st, neg(mk_cmp('==', v, NULL)) if v[0] not in ('null', 'ref', 'c') else const(v[0] != 'null'))]
    if name == 'release':
        self.write(obj, NULL, st, e, fr)
        return [(st, v)]
    if name == 'reset':
        def rs(s, nv):
            old = self.load(obj, s)
            if not weak and old[0] not in ('null', 'moved', 'uninit'):
                self.emit(s, 'drop_ptr', e, fr, path=obj, val=old, t=(c['b'] if c.get('k') == 'MemberExpr' else c).get('t', ''), reset=True)
            self.write(obj, nv, s, e, fr)
            if nv != NULL:
                self.emit(s, 'own', e, fr, path=obj, val=nv, t=cq, nargs=len(a), arg=a[0] if a else None)
            return [(s, VOID)]
        if a:
            return self.bind(self.ev_val(a[0], st, fr), rs)
        return rs(st, NULL)
    if name in ('use_count', 'unique'):
        return [(st, ('r', name, e['i']))]
    if name == 'swap':
        def sw(s, p):
            x, y = self.load(obj, s), self.load(p, s)
            self.write(obj, y, s, e, fr)
            self.write(p, x, s, e, fr)
            return [(s, VOID)]
        return self.bind(self.ev_loc(a[0], st, fr), sw)
    return [(st, ('r', name, e['i']))]


def function_member(self, e, name, obj, a, st, fr, ret):
    v = self.load(obj, st)
    if name in ('conv', 'operator bool'):
        if I.shared_root(obj):
            self.emit(st, 'read', e, fr, path=obj, atomic=False)
        if v[0] in ('nofn', 'null'):
            return [(st, C0)]
        if v[0] in ('clos', 'bind', 'fnp'):
            return [(st, C1)]
        return [(st, neg(mk_cmp('==', v, ('nofn',))))]
    if name == 'operator()':
        if I.shared_root(obj):
            self.emit(st, 'read', e, fr, path=obj, atomic=False)
            self.emit(st, 'invoke', e, fr, path=obj, val=v)
        if v[0] in ('nofn', 'null', 'uninit'):
            self.emit(st, 'badcall', e, fr, path=obj, val=v)
        return self.call_value(v, a, st, fr, e, ret)
    if name == 'swap':
        def sw(s, p):
            x, y = self.load(obj, s), self.load(p, s)
            self.write(obj, y, s, e, fr)
            self.write(p, x, s, e, fr)
            return [(s, VOID)]
        return self.bind(self.ev_loc(a[0], st, fr), sw)
    return [(st, ('r', name, e['i']))]


def thread_member(self, e, name, obj, a, st, fr):
    v = self.load(obj, st)
    if name == 'joinable':
        if v[0] == 'nothread':
            return [(st, C0)]
        if v[0] == 'thread':
            return [(st, C1)]
        if any(obj[:len(x)] == x for x in self.running):
            return [(st, C1)]
        return [(st, ('r', 'joinable', v))]
    if name == 'join':
        self.emit(st, 'join', e, fr, path=obj, val=v)
        self.havoc(st, e['i']) if not st.locks else None
        self.setv(obj, ('nothread',), st)
        return [(st, VOID)]
    if name == 'detach':
        self.emit(st, 'detach', e, fr, path=obj, val=v)
        self.setv(obj, ('nothread',), st)
        return [(st, VOID)]
    return [(st, ('r', name, v))]


def size_of(v):
    if v[0] == 'emptyc':
        return C0
    if v[0] == 'list':
        return const(len(v[1]))
    if v[0] == 's':
        return const(len(v[1]))
    return ('size', v)


MAPS = ('std::map', 'std::unordered_map')


def cont_member(self, e, name, cq, f, obj, a, st, fr, ret):
    t = e.get('t', '')
    isconst = f.get('const')
    out = []
    if name == 'operator()' or name == 'get_allocator':
        return [(st, ('r', name, e['i']))]
    for s, vals in self.args(None, a, st, fr, f.get('pt')):
        if s.exc is not None:
            out.append((s, None))
            continue
        avs = []
        for r, v, _ in vals:
            v = v if v is not None else self.load(r, s)
            if v[0] in ('argobj', 'obj'):
                r = v[1]
                v = whole(self, v[1], s)
            elif v[0] == 'uninit' and r is not None:
                v = whole(self, r, s)
            if v[:2] == ('r', 'pair') and r is not None:
                v = ('pair', whole(self, r + ('first',), s), whole(self, r + ('second',), s))
            avs.append(v)
        avs = tuple(avs)
        refs = tuple(r for r, _, _ in vals)
        cv = self.load(obj, s)
        if cv[0] == 'uninit':
            cv = ('emptyc',)
            s.store[obj] = cv
        if cv[0] == 'moved':
            cv = ('r', 'moved', e['i'])
            s.store[obj] = cv
        shared = I.shared_root(obj)
        el = obj + ('[]',)
        readonly = isconst or name in ('begin', 'end', 'find', 'front', 'back', 'at', 'rbegin', 'rend', 'data', 'lower_bound', 'upper_bound', 'top') or (
            name == 'operator[]' and cq not in ('std::map', 'std::unordered_map'))
        ev = None
        if readonly:
            if shared:
                self.emit(s, 'read', e, fr, path=obj, atomic=False, member=name)
            ev = self.emit(s, 'cread', e, fr, path=obj, name=name, args=avs, cval=cv, refs=refs)
        d = dom.depth((cv, avs)) < 6
        if self.may_throw({'k': 'cont', 'name': name, 'cq': cq, 'path': obj}):
            s2 = s.clone()
            s2.exc = (None, '?', (e.get('i'),))
            out.append((s2, None))
        if name == 'empty':
            out.append((s, mk_cmp('==', size_of(cv), C0)))
            continue
        if name in ('size', 'length'):
            out.append((s, size_of(cv)))
            continue
        if name in ('front', 'back', 'top'):
            if cq in ('std::vector', 'std::deque'):
                at_key(self, obj, (C0 if name == 'front' else add(size_of(cv), -1),), s)
            self.emit(s, 'elem', e, fr, path=obj, name=name, empty=dom.decide(mk_cmp('==', size_of(cv), C0), s.facts))
            out.append((s, ('ref', obj + ('[]',)) if e.get('lv') else ('r', name, e['i'])))
            continue
        if name in ('at',):
            if cq in ('std::map', 'std::unordered_map'):
                s2 = s.clone()
                s2.exc = ('std', 'std::out_of_range', (e.get('i'),))
                has = found_atom(obj, avs, cv) if d else None
                if has is not None:
                    fa = dom.assume(has, False, s2.facts)
                    fb = dom.assume(has, True, s.facts)
                    if fa is not None:
                        s2.facts = fa
                    if fb is not None:
                        s.facts = fb
                    if fb is None:
                        s = None
                    if fa is None:
                        s2 = None
                if s2 is not None:
                    self.emit(s2, 'throw', e, fr, exc=s2.exc, rethrow=False, implicit=True)
                    out.append((s2, None))
                if s is None:
                    continue
            at_key(self, obj, avs, s)
            out.append((s, ('ref', el + (('second',) if cq in MAPS else ()))))
            continue
        if name == 'operator[]':
            if not readonly:
                if shared:
                    self.emit(s, 'write', e, fr, path=obj, val=('r', 'idx', e['i']), old=cv, atomic=False, mutate='operator[]')
                self.emit(s, 'cmut', e, fr, path=obj, name=name, args=avs, cval=cv, refs=refs)
                self.setv(obj, ('mut', 'idx', e['i']), s)
            at_key(self, obj, avs, s)
            out.append((s, ('ref', el + (('second',) if cq in MAPS else ()))))
            continue
        if name in ('begin', 'cbegin', 'rbegin'):
            v = ('it', obj, 'begin', cv if d else 'x')
            out.append((s, v))
            continue
        if name in ('end', 'cend', 'rend'):
            out.append((s, ('it', obj, 'end', cv if d else 'x')))
            continue
        if name in ('find', 'lower_bound', 'upper_bound') and cq != 'std::basic_string':
            v = ('it', obj, (name, avs if d else e['i']), cv if d else 'x')
            out.append((s, v))
            continue
        if name in ('count', 'contains'):
            it = ('it', obj, ('find', avs if d else e['i']), cv if d else 'x')
            endv = ('it', obj, 'end', cv if d else 'x')
            has = neg(mk_cmp('==', it, endv))
            for x, b in self.fork(has, s):
                out.append((x, C1 if b else C0))
            continue
        if isconst:
            v = ('r', name, cv, avs) if d else ('r', name, e['i'])
            if t.startswith('unsigned'):
                dom.UNSIGNED.add(v)
            if e.get('lv'):
                v = ('ref', el)
            if ret is not None and not I.is_scalar_t(t) and t != 'void' and not e.get('lv'):
                self.setv(ret, v, s)
                v = ('obj', ret)
            out.append((s, v))
            continue
        # mutation
        nv = ('mut', name, e['i'])
        if name in ('clear',):
            nv = ('emptyc',)
        if name == 'swap' and refs and refs[0] is not None:
            ov = self.load(refs[0], s)
            self.emit(s, 'cmut', e, fr, path=obj, name=name, args=avs, cval=cv, refs=refs)
            if shared:
                self.emit(s, 'write', e, fr, path=obj, val=ov, old=cv, atomic=False, mutate='swap')
            if I.shared_root(refs[0]):
                self.emit(s, 'write', e, fr, path=refs[0], val=cv, old=ov, atomic=False, mutate='swap')
            self.setv(obj, ov if ov[0] != 'uninit' else ('emptyc',), s)
            self.setv(refs[0], cv, s)
            out.append((s, VOID))
            continue
        if shared:
            self.emit(s, 'write', e, fr, path=obj, val=nv, old=cv, atomic=False, mutate=name)
        ev = self.emit(s, 'cmut', e, fr, path=obj, name=name, args=avs, cval=cv, refs=refs)
        for v in avs:
            if v[0] in ('clos', 'bind', 'fnp'):
                self.escapes.append((v, 'container', ev, s.clone()))
        def renm(x):
            if x == nv:
                return None
            return None
        if cq in KEYED and d:
            kv = None
            if name == 'erase' and len(avs) == 1 and avs[0][0] != 'it' and I.is_scalar_t(t):
                kv = avs[0]
            elif name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and 'pair<' in t:
                kv, val = avs[0] if avs else None, avs[1] if len(avs) == 2 else None
                if kv is not None and name in ('insert', 'emplace') and cq in MAPS and len(avs) == 1:
                    kv, val = kv[1:3] if kv[0] == 'pair' and len(kv) == 3 else (None, None)
                if kv is not None and kv[0] == 'it':
                    kv = None
            if kv is not None:
                if name != 'erase':
                    for r, v, node in vals:
                        if r is not None and isinstance(node, dict) and node.get('xv') and movable_arg(node):
                            s.store[r] = ('moved',)
                s.facts = frozenset((at, pol) for at, pol in s.facts if not mentions(at, nv))
                for x, b in self.fork(found_atom(obj, (kv,), cv), s):
                    if name == 'erase':
                        if b:
                            self.setv(obj, nv, x)
                        out.append((x, C1 if b else C0))
                        continue
                    ch = not b or name == 'insert_or_assign'
                    if ch:
                        self.setv(obj, nv, x)
                        fa = dom.assume(mk_cmp('==', size_of(nv), C0), False, x.facts)
                        fa = fa if fa is None else dom.assume(found_atom(obj, (kv,), nv), True, fa)
                        if fa is not None:
                            x.facts = fa
                    at_key(self, obj, (kv,), x)
                    if ch and val is not None and cq in MAPS:
                        x.store[el + ('second',)] = val
                    v = ('r', 'pair', e['i'])
                    if ret is not None:
                        self.setv(ret, v, x)
                        self.setv(ret + ('first',), ('it', obj, ('find', (kv,)), nv if ch else cv), x)
                        self.setv(ret + ('second',), C0 if b else C1, x)
                        v = ('obj', ret)
                    out.append((x, v))
                continue
        # several mutations at the same site give the same symbol: forget facts about its previous incarnation
        s.facts = frozenset((at, pol) for at, pol in s.facts if not mentions(at, nv))
        self.setv(obj, nv, s)
        if name in ('push', 'push_back', 'emplace_back', 'emplace', 'push_front', 'insert') and cq not in ('std::basic_string',) and name != 'insert':
            fa = dom.assume(mk_cmp('==', size_of(nv), C0), False, s.facts)
            if fa is not None:
                s.facts = fa
        # moved-in arguments
        if t == 'void':
            v = VOID
        elif name in ('insert', 'emplace') and 'pair<' in t:
            v = ('r', 'insert', e['i'])
            if ret is not None:
                self.setv(ret, v, s)
                v = ('obj', ret)
        elif e.get('lv') or e.get('xv'):
            v = ('ref', obj) if name.startswith('operator') or name in ('append', 'assign', 'replace', 'erase') else ('ref', el)
        else:
            v = ('it', obj, name, e['i'])
        out.append((s, v))
    return out


def make_pair(self, e, a, path, st, fr):
    out = []
    for s, vals in self.args(None, a, st, fr):
        if s.exc is not None:
            out.append((s, None))
            continue
        self.setv(path, ('r', 'pair', e['i']), s)
        for nm, (r, v, node) in zip(('first', 'second'), vals):
            if v is not None and v[0] in ('argobj', 'obj'):
                r = v[1]
            if r is not None:
                self.copy_obj(r, path + (nm,), s, bool(isinstance(node, dict) and node.get('xv') and movable_arg(node)))
            elif v is not None:
                self.setv(path + (nm,), v, s)
        out.append((s, VOID))
    return out


def movable_arg(node):
    return not I.is_scalar_t(node.get('t', '')) and 'const ' not in node.get('t', '')


KEYED = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')


def found_atom(obj, avs, cv):
    return neg(mk_cmp('==', ('it', obj, ('find', tuple(avs)), cv), ('it', obj, 'end', cv)))


def whole(self, r, s):
    """value of an object; of one whose members are all copies from another object, the value of that object"""
    v = self.load(r, s)
    if v[0] != 'uninit' and r in s.store:
        return v
    n = len(r)
    src = set()
    for k, x in s.store.items():
        if len(k) > n and k[:n] == r and k[-1] != '%cls':
            m = len(k) - n
            src.add((x[1][:-m],) + tuple(x[2:]) if x[0] == 'fld' and len(x[1]) > m and x[1][-m:] == k[n:] else None)
    if len(src) == 1 and None not in src:
        return ('fld',) + src.pop()
    return v


def at_key(self, obj, avs, s):
    """remember by which key (or index) the element of a container is accessed"""
    kp = obj + ('%key',)
    kv = avs[0] if len(avs) == 1 and dom.depth(avs) < 6 else None
    if s.store.get(kp) != kv or kv is None:
        self.renew(obj + ('[]',), s)
        if kv is None:
            s.store.pop(kp, None)
        else:
            s.store[kp] = kv


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(isinstance(y, tuple) and mentions(y, x) for y in v)
    return False


def iter_member(self, e, name, obj, a, st, fr):
    v = self.load(obj, st)
    if name in ('operator->', 'operator*'):
        self.emit(st, 'itderef', e, fr, val=v)
        if v[0] == 'it':
            kp = v[1] + ('%key',)
            if isinstance(v[2], tuple) and v[2][0] == 'find' and isinstance(v[2][1], tuple) and len(v[2][1]) == 1:
                at_key(self, v[1], v[2][1], st)
            elif kp in st.store:
                self.renew(v[1] + ('[]',), st)
                st.store.pop(kp, None)
        return [(st, ('ref', it_elem(v)))]
    if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
        nv = ('it', v[1], ('next', e['i']), v[3]) if v[0] == 'it' else ('r', 'next', e['i'])
        st.facts = frozenset((at, pol) for at, pol in st.facts if not mentions(at, nv))
        if v[0] == 'it':
            self.renew(v[1] + ('[]',), st)
            st.store.pop(v[1] + ('%key',), None)
        self.setv(obj, nv, st)
        if e.get('lv'):
            return [(st, ('ref', obj))]
        return [(st, v)]
    if name in ('operator+', 'operator-') and len(a) == 1 and v[0] == 'it' and (v[2] == 'begin' or isinstance(v[2], tuple) and v[2][0] == 'at'):
        def shift(s, n):
            if n[0] in ('obj', 'it', 'argobj'):
                return [(s, ('r', name, e['i']))]
            at = v[2][1] if v[2] != 'begin' else dom.C0
            if n[0] == 'c':
                to = dom.add(at, n[1] if name == 'operator+' else -n[1])
            elif at[0] == 'c' and name == 'operator+':
                to = dom.add(n, at[1])
            else:
                return [(s, ('r', name, e['i']))]
            return [(s, ('it', v[1], ('at', to), v[3]))]
        return self.bind(self.ev_val(a[0], st, fr), shift)
    return [(st, ('r', name, e['i']))]


def it_elem(v):
    if v[0] == 'it':
        return v[1] + ('[]',)
    if v[0] == 'fld':
        return v[1] + ('*', '[]')
    return ('?', v, '[]')


PASS = {'std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::as_const',
        'std::move_if_noexcept', 'std::launder', 'std::const_pointer_cast'}


def std_free(self, e, f, q, a, st, fr, ret):
    name = q.split('::')[-1]
    if q in ('std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept') and len(a) == 1:
        return self.bind(self.ev_loc(a[0], st, fr), lambda s, p: [(s, ('ref', p))])
    if q in ('std::addressof',):
        return self.bind(self.ev_loc(a[0], st, fr), lambda s, p: [(s, ('ref', p))])
    if q in ('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast'):
        def pc(s, v):
            if v[0] == 'obj':
                v = self.load(v[1], s)
            out = [(s, v)]
            if 'dynamic' in q and v[0] != 'null':
                s2 = s.clone()
                out.append((s2, NULL))
            r = []
            for x, y in out:
                if ret is not None:
                    self.setv(ret, y, x)
                    r.append((x, ('obj', ret)))
                else:
                    r.append((x, y))
            return r
        return self.bind(self.ev_val(a[0], st, fr), pc)
    if q in ('std::ref', 'std::cref'):
        return self.bind(self.ev_loc(a[0], st, fr), lambda s, p: [(s, ('ref', p))])
    if q in ('std::make_shared', 'std::make_unique'):
        return make_smart(self, e, f, a, st, fr, ret)
    if q == 'std::make_pair' and ret is not None:
        return [(s, v if s.exc is not None else ('obj', ret)) for s, v in make_pair(self, e, a, ret, st, fr)]
    if q == 'std::bind':
        return do_bind(self, e, a, st, fr)
    if q == 'std::swap' and len(a) == 2:
        def s1(s, p):
            def s2(x, r):
                u, v = self.load(p, x), self.load(r, x)
                if I.shared_root(p):
                    self.emit(x, 'write', e, fr, path=p, val=v, old=u, atomic=False)
                if I.shared_root(r):
                    self.emit(x, 'write', e, fr, path=r, val=u, old=v, atomic=False)
                tmp = ('t', e['i'], fr.d, 'swap')
                self.copy_obj(p, tmp, x)
                self.copy_obj(r, p, x)
                self.copy_obj(tmp, r, x)
                self.forget(tmp, x)
                self.setv(p, v, x) if p not in x.store else None
                return [(x, VOID)]
            return self.bind(self.ev_loc(a[1], s, fr), s2)
        return self.bind(self.ev_loc(a[0], st, fr), s1)
    if q == 'std::exchange' and len(a) == 2:
        def x1(s, v):
            def x2(y, p):
                old = self.read(p, y, a[0], fr)
                self.write(p, v, y, e, fr)
                if ret is not None:
                    self.setv(ret, old, y)
                    return [(y, ('obj', ret))]
                return [(y, old)]
            return self.bind(self.ev_loc(a[0], s, fr), x2)
        return self.bind(self.ev_val(a[1], st, fr), x1)
    if q in ('std::lock',):
        res = [(st, ())]
        for x in a:
            nxt = []
            for s, acc in res:
                if s.exc is not None:
                    nxt.append((s, acc))
                    continue
                for s2, p in self.ev_loc(x, s, fr):
                    nxt.append((s2, acc + ((p, x['t']),)))
            res = nxt
        out = []
        for s, acc in res:
            sts = [s]
            for p, mt in acc:
                nn = []
                for x in sts:
                    g = self.load(p, x)
                    self.emit(x, 'multilock', e, fr, ms=tuple((self.load(y[0], x)[1] if self.load(y[0], x)[0] == 'guard' else y[0]) for y in acc))
                    if g[0] == 'guard':
                        for y in self.lock(g[1], g[3], x, e, fr):
                            self.setv(p, ('guard', g[1], 1, g[3]), y)
                            nn.append(y)
                    else:
                        nn += self.lock(p, 'x', x, e, fr, mt)
                sts = nn
            out += [(x, VOID) for x in sts]
        return out
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(a) == 2:
        op = name[8:]

        def c1(s, x):
            def c2(s2, y):
                x2, y2 = x, y
                if x2[0] == 'obj':
                    x2 = self.load(x2[1], s2)
                if y2[0] == 'obj':
                    y2 = self.load(y2[1], s2)
                ta = a[0].get('t', '')
                if 'function<' in ta or 'function<' in a[1].get('t', ''):
                    x2 = ('nofn',) if x2 == NULL else x2
                    y2 = ('nofn',) if y2 == NULL else y2
                    if {x2[0], y2[0]} & {'clos', 'bind', 'fnp'} and {x2[0], y2[0]} & {'nofn'}:
                        return [(s2, const(op == '!='))]
                if x2[0] == 'it' and y2[0] == 'it' and {x2[2] if isinstance(x2[2], str) else '', y2[2] if isinstance(y2[2], str) else ''} == {'begin', 'end'}:
                    em = mk_cmp('==', size_of(x2[3]) if isinstance(x2[3], tuple) else ('r', 'sz', e['i']), C0)
                    if x2[1] == y2[1]:
                        self.itcmp[em] = x2[1]
                    return [(s2, em if op == '==' else neg(em))]
                if op in ('==', '!=') and ('s', '') in (x2, y2):
                    em = mk_cmp('==', C0, size_of(y2 if x2 == ('s', '') else x2))
                    return [(s2, em if op == '==' else neg(em))]
                return [(s2, mk_cmp(op, x2, y2))]
            return self.bind(self.ev_val(a[1], s, fr), c2)
        return self.bind(self.ev_val(a[0], st, fr), c1)
    if name in ('find_if', 'for_each', 'any_of', 'all_of', 'none_of', 'count_if', 'remove_if', 'transform', 'find_if_not', 'sort', 'accumulate', 'copy_if') and q.startswith('std::'):
        return algorithm(self, e, f, name, a, st, fr, ret)
    if name in ('lock_guard',):
        pass
    if q in ('std::terminate', 'std::abort', 'std::exit', 'std::quick_exit', 'std::_Exit'):
        self.emit(st, 'noreturn', e, fr, q=q)
        return []
    if q == 'std::this_thread::sleep_for' or q == 'std::this_thread::yield' or q == 'std::this_thread::sleep_until':
        out = []
        for s, vals in self.args(None, a, st, fr, f.get('pt')):
            if s.exc is None:
                self.emit(s, 'block', e, fr, what=q)
                if not s.locks:
                    self.havoc(s, e['i'])
            out.append((s, VOID))
        return out
    if q in ('std::min', 'std::max') and len(a) == 2:
        out = []
        for s, vals in self.args(None, a, st, fr, f.get('pt')):
            if s.exc is not None:
                out.append((s, None))
                continue
            x = [v if v is not None else self.load(r, s) for r, v, _ in vals]
            for y, b in self.fork(mk_cmp('<', x[1], x[0]), s):
                lo, hi = (1, 0) if b else (0, 1)
                i = lo if name == 'min' else hi
                r = vals[i][0]
                if e.get('lv') and r is not None:
                    out.append((y, ('ref', r)))
                else:
                    out.append((y, x[i]))
        return out
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty') and q.startswith('std::') and len(a) == 1:
        def be(s, p):
            cv = self.load(p, s)
            if name == 'size':
                return [(s, size_of(cv))]
            if name == 'empty':
                return [(s, mk_cmp('==', size_of(cv), C0))]
            return [(s, ('it', p, name.lstrip('c') if name in ('cbegin', 'cend') else name, cv))]
        return self.bind(self.ev_loc(a[0], st, fr), be)
    if name in ('next', 'prev') and q.startswith('std::'):
        return self.bind(self.ev_val(a[0], st, fr), lambda s, v: [(s, ('it', v[1], ('next', e['i']), v[3]) if v[0] == 'it' else ('r', 'next', e['i']))])
    if name == 'operator+' and len(a) == 2:
        def p1(s, x):
            def p2(s2, y):
                x2 = self.load(x[1], s2) if x[0] == 'obj' else x
                y2 = self.load(y[1], s2) if y[0] == 'obj' else y
                if x2[0] == 's' and y2[0] == 's':
                    v = ('s', x2[1] + y2[1])
                elif 'chrono' in q or 'chrono' in e.get('t', ''):
                    v = ('op', '+', x2, y2)
                else:
                    v = ('op', '+', x2, y2)
                    if dom.depth(v) > 6:
                        v = ('r', 'concat', e['i'])
                if ret is not None:
                    self.setv(ret, v, s2)
                    return [(s2, ('obj', ret))]
                return [(s2, v)]
            return self.bind(self.ev_val(a[1], s, fr), p2)
        return self.bind(self.ev_val(a[0], st, fr), p1)
    # streams and everything else: opaque; an operator whose result is its first operand keeps the reference
    out = []
    for s, vals in self.args(None, a, st, fr, f.get('pt')):
        if s.exc is not None:
            out.append((s, None))
            continue
        avs = []
        for r, v, _ in vals:
            v = v if v is not None else self.load(r, s)
            if v[0] in ('argobj', 'obj'):
                v = self.load(v[1], s)
            avs.append(v)
        ev = self.emit(s, 'stdcall', e, fr, q=q, obj=None, args=tuple(avs), refs=tuple(r for r, _, _ in vals), const=None)
        for v in avs:
            if v[0] in ('clos', 'bind', 'fnp'):
                self.escapes.append((v, q, ev, s.clone()))
        if self.may_throw(ev):
            s2 = s.clone()
            s2.exc = (None, '?', (e.get('i'),))
            out.append((s2, None))
        if f.get('noret'):
            self.emit(s, 'noreturn', e, fr, q=q)
            continue
        pts = f.get('pt') or []
        first_stream = name in ('operator<<', 'operator>>')
        for i, (r, x, node) in enumerate(vals):
            if r is not None and i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const ') and not pts[i].endswith('&&'):
                if I.shared_root(r):
                    self.emit(s, 'write', e, fr, path=r, val=('r', 'out', e['i']), old=self.load(r, s), atomic=False, mutate=name)
                self.forget(r, s)
                s.store[r] = ('r', 'out', e.get('i'), i)
        t = e.get('t', '')
        if t == 'void':
            v = VOID
        elif q == 'std::chrono::operator-' and len(avs) == 2 and dom.depth(avs) < 7:
            v = ('op', '-', avs[0], avs[1])
            if ret is not None:
                self.setv(ret, v, s)
                v = ('obj', ret)
        elif q == 'std::chrono::duration_cast' and dur_unit(t) and dom.depth(avs) < 7:
            v = ('durc', dur_unit(t), avs[0])
            if ret is not None:
                self.setv(ret, v, s)
                v = ('obj', ret)
        elif e.get('lv') and vals and vals[0][0] is not None and first_stream:
            v = ('ref', vals[0][0])
        else:
            v = ('r', name, tuple(avs)) if dom.depth(tuple(avs)) < 4 and not any(r is not None and i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const ') for i, (r, _, _) in enumerate(vals)) and not q.endswith('now') else ('r', name, e['i'])
            if e.get('lv') or e.get('xv'):
                v = ('ref', ('?', v))
            elif ret is not None and not I.is_scalar_t(t):
                self.setv(ret, v, s)
                v = ('obj', ret)
        out.append((s, v))
    return out


def make_smart(self, e, f, a, st, fr, ret):
    path = ('h', e['i'], fr.d)
    self.forget(path, st)
    t = I.unconst(e['t'])
    inner = t[t.index('<') + 1:-1] if '<' in t else ''
    dpt = 0
    for i, ch in enumerate(inner):
        if ch == '<':
            dpt += 1
        elif ch == '>':
            dpt -= 1
        elif ch == ',' and dpt == 0:
            inner = inner[:i]
            break
    inner = inner.strip()
    cls = self.t2rec.get(inner)
    out = []
    for s, vals in self.args(None, a, st, fr, f.get('pt')):
        if s.exc is not None:
            out.append((s, None))
            continue
        sts = [s]
        done = False
        if cls:
            r = self.p.records[cls]
            cands = [m for m in r.get('methods', []) if m['kind'] == 'ctor' and not m.get('deleted')]
            fnc = None
            for m in cands:
                fn = self.p.fn(m['u'])
                if fn and len(fn['params']) == len(a) and fn.get('body') is not None:
                    if len(a) == 1 and I.unconst(fn['params'][0]['t']) == inner:
                        continue
                    ok = all(arg_compat(prm['t'], x.get('t', '')) for prm, x in zip(fn['params'], a))
                    if ok or fnc is None:
                        fnc = fn
                        if ok:
                            break
            if r.get('poly'):
                s.store[path + ('%cls',)] = ('cls', cls)
            if fnc is not None and a or fnc is not None and not a:
                vv = []
                for prm, (rr, v, n) in zip(fnc['params'], vals):
                    if prm.get('ref'):
                        vv.append((rr if rr is not None else self.mat(v, n, s, fr), None))
                    else:
                        x = v if v is not None else self.load(rr, s)
                        vv.append((None, x))
                sts = [x for x, _ in self.invoke(fnc, path, vv, s, fr, e, None, ctor=True)]
                done = True
            elif not a:
                sts = [x for x, _ in self.default_fields(cls, path, s, fr, e)]
        for s2 in sts:
            if s2.exc is not None:
                out.append((s2, None))
                continue
            if not done and a:
                r0, v0, _ = vals[0]
                self.setv(path, v0 if v0 is not None and v0[0] != 'argobj' else (self.load(r0, s2) if r0 is not None else ('r', 'mk', e['i'])), s2)
            self.emit(s2, 'new', e, fr, path=path, t=inner, cls=cls, smart=True)
            v = ('ref', path)
            if ret is not None:
                self.setv(ret, v, s2)
                v = ('obj', ret)
            out.append((s2, v))
    return out


def arg_compat(pt, at):
    return I.unconst(pt.replace('&&', '').strip()) == I.unconst(at)


def do_bind(self, e, a, st, fr):
    def go(s, fv):
        out = []
        for s2, vals in self.args(None, a[1:], s, fr):
            if s2.exc is not None:
                out.append((s2, None))
                continue
            b = []
            for r, v, node in vals:
                t = node.get('t', '')
                if '_Placeholder<' in t:
                    n = t.split('_Placeholder<')[1].split('>')[0]
                    b.append(('ph', int(n)))
                else:
                    x = v if v is not None else self.load(r, s2)
                    if x[0] in ('argobj', 'obj'):
                        x = self.load(x[1], s2)
                    b.append(x)
            if fv[0] == 'fnp':
                out.append((s2, ('bind', fv[1], tuple(b))))
            else:
                out.append((s2, ('r', 'bind', e['i'])))
        return out
    return self.bind(self.ev_val(a[0], st, fr), go)


def algorithm(self, e, f, name, a, st, fr, ret):
    """Algorithms over an iterator range: the callable runs 0..n times on elements of the container."""
    out = []
    for s, vals in self.args(None, a, st, fr):
        if s.exc is not None:
            out.append((s, None))
            continue
        avs = []
        for r, v, _ in vals:
            v = v if v is not None else self.load(r, s)
            if v[0] in ('argobj', 'obj'):
                v = self.load(v[1], s)
            avs.append(v)
        it = avs[0]
        clos = [v for v in avs if v[0] in ('clos', 'bind', 'fnp')]
        if it[0] != 'it' or not clos:
            if clos:
                self.escapes.append((clos[0], 'std::' + name, None, s.clone()))
            out.append((s, ('r', name, e['i'])))
            continue
        cont = it[1]
        fnv = clos[0]
        if I.shared_root(cont):
            self.emit(s, 'read', e, fr, path=cont, atomic=False, member=name)
        results = []

        def body(t, el):
            res = []
            for x, v in self.call_value(fnv, [], t, fr, dict(e, i=(e['i'], 'alg'), t='bool' if name.endswith(('if', 'of')) else 'void', lv=False, xv=False), None,
                                        argvals=[(el, None)] if takes_ref(self, fnv) else [(None, self.load(el, t))]):
                if x.exc is not None:
                    res.append(('thr', x, None))
                    continue
                if name in ('find_if', 'any_of'):
                    for y, b in self.fork(v, x):
                        if b:
                            results.append((y, 'hit'))
                        else:
                            res.append(('n', y, None))
                elif name in ('all_of', 'none_of', 'find_if_not'):
                    for y, b in self.fork(v, x):
                        if b == (name == 'none_of'):
                            results.append((y, 'hit'))
                        else:
                            res.append(('n', y, None))
                else:
                    res.append(('n', x, None))
            return res
        outs = self.for_each({'i': (e['i'], 'algl'), 'l': e.get('l')}, cont, s, fr, body)
        for k, x, _ in outs:
            if k == 'thr':
                out.append((x, None))
            else:
                results.append((x, 'end'))
        for x, w in results:
            cv = self.load(cont, x)
            if name in ('find_if', 'find_if_not'):
                v = ('it', cont, 'end', cv) if w == 'end' else ('it', cont, ('hit', e['i']), cv)
                if w == 'hit':
                    fa = dom.assume(mk_cmp('==', v, ('it', cont, 'end', cv)), False, x.facts)
                    if fa is not None:
                        x.facts = fa
            elif name == 'any_of':
                v = const(w == 'hit')
            elif name in ('all_of', 'none_of'):
                v = const(w != 'hit')
            else:
                v = ('r', name, e['i'])
            out.append((x, v))
    return out


def takes_ref(self, v):
    fn = self.closures.get(v[1]) or self.p.fn(v[1])
    if fn and fn['params']:
        return bool(fn['params'][0].get('ref'))
    return True
