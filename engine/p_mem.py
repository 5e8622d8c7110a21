"""Owner/lessee/guard pointers and Heritable."""
import dom
from dom import NULL, consistent, decide, mk_cmp, neg, symbols, truth
from facts import AnalysisBroken, strip_t
from interp import fmt_path, unconst
from lib import NS, monitor, short_val, path_to

MUTEX = ('std::shared_timed_mutex', 'std::shared_mutex', 'std::mutex', 'std::recursive_mutex', 'std::timed_mutex')


def by_elem(ctx, name):
    return {tuple(r['ta']): r['u'] for r in ctx.cls(name)}


class Mem:
    """The classes of one element type and the roles of their fields."""

    def __init__(self, ctx, ta, D, G, L, O):
        self.ta, self.D, self.G, self.L, self.O = ta, D, G, L, O
        r = ctx.p.records
        fd = [f for _, f in ctx.p.all_fields(D)]
        self.mtx = [f['name'] for f in fd if unconst(f['t']) in MUTEX]
        self.ref = [f['name'] for f in fd if unconst(f['t']).endswith('*')]
        self.dele = [f['name'] for f in fd if unconst(f['t']).startswith('std::function<') and not unconst(f['t']).endswith('*')]
        if len(self.mtx) != 1 or len(self.ref) != 1 or len(self.dele) != 1:
            raise AnalysisBroken('the fields of InternalPtrData are not one mutex, one pointer and one deleter any more')
        self.mtx, self.ref, self.dele = self.mtx[0], self.ref[0], self.dele[0]
        self.f = {}
        for c in (G, L, O):
            ps = [f['name'] for _, f in ctx.p.all_fields(c) if unconst(f['t']).startswith(('std::shared_ptr<',)) and 'InternalPtrData' in f['t']]
            if len(ps) != 1:
                raise AnalysisBroken('%s does not hold one shared pointer to the shared data' % ctx.short(c))
            self.f[c] = ps[0]


def families(ctx):
    d, g, l, o = (by_elem(ctx, n) for n in ('InternalPtrData', 'GuardedPtr', 'LesseePtr', 'OwnerPtr'))
    out = []
    for ta in d:
        if ta in g and ta in l and ta in o:
            m = Mem(ctx, ta, d[ta], g[ta], l[ta], o[ta])
            # only the instantiation whose every member has a body
            if all(ctx.p.fn(x['u']) and ctx.p.fn(x['u']).get('body') is not None
                   for x in ctx.p.records[m.O]['methods'] if x['name'] in ('reset', 'lease')):
                out.append(m)
    ctx.need(len(out), 1, 'element types of OwnerPtr/LesseePtr/GuardedPtr')
    out = [m for m in out if m.ta == ('vt::Elem',)] or out
    return out


def pointee(v):
    if v[0] == 'ref':
        return v[1]
    if v[0] in ('fld', 'old'):
        return v[1] + ('*',)
    if v[0] == 'p':
        return ('P', v[1])
    return ('?', v)


def isnull(v, facts):
    if v[0] in ('null', 'nofn', 'emptyc', 'moved'):
        return True
    if v[0] == 'ref':
        return False
    d = decide(mk_cmp('==', v, NULL), facts)
    return d if d in (True, False) else None


def fld(st, path):
    v = st.store.get(path)
    if v is not None:
        return v
    return ('fld', path, 'k')


def owed(m, st, facts, ptrs):
    """Shared locks that the given guard pointers must hold: (list, undecided pointer or None)"""
    out = []
    for v in ptrs:
        n = isnull(v, facts)
        if n is None:
            return out, v
        if not n:
            out.append(pointee(v) + (m.mtx,))
    return out, None


def lockset(st):
    out = []
    for x in st.locks:
        out += [(x[0], x[1])] * x[2]
    return out


def conf(*roots):
    return tuple(roots)


def exits(run):
    return run.g.exits


def guard_balance(ctx, m, run, where, ptrs_of, loc):
    bad = []
    for node, kind, st, val in exits(run):
        if not consistent(st.facts):
            continue
        ptrs = ptrs_of(kind, st, val)
        need, und = owed(m, st, st.facts, ptrs)
        if und is not None:
            bad.append((node, 'leaves it undetermined whether the guard is empty'))
            continue
        have = lockset(st)
        hs = sorted(fmt_path(x) for x, md in have if md == 's')
        hx = [fmt_path(x) for x, md in have if md != 's']
        ns = sorted(fmt_path(x) for x in need)
        if hx:
            bad.append((node, 'keeps an exclusive lock'))
        elif hs != ns:
            bad.append((node, 'ends %s holding %d shared lock(s) while %d non-empty guard(s) exist' % (
                'normally' if kind == 'return' else 'with an exception', len(hs), len(ns))))
        elif any(ev['k'] in ('unlock_unheld',) for ev in ()):
            pass
    for ev in run.events('unlock_unheld'):
        bad.append((None, 'unlocks a mutex that it does not hold'))
    msgs = sorted({b for _, b in bad})
    if not msgs:
        ctx.oblige('guard-balance', True, where, loc, '')
    for x in msgs:
        node = [n for n, b in bad if b == x][0]
        ctx.oblige('guard-balance', False, where, loc, x, path_to(ctx, run, node) if node is not None else ())


def M01(ctx):
    """guards hold exactly one shared lock while they refer to data"""
    for m in families(ctx):
        p = ctx.p
        gt = ctx.p.records[m.G]['t']
        T = ('this',)
        kw = dict(confined=(T, ('P', 'other'), ('X', 'ret')))
        n = 0
        # every member of the lessee: locks at its end = locks owed by the guard it returns
        for f in ctx.methods(m.L):
            if f.get('kind') in ('ctor', 'dtor') or f['name'] == 'operator=':
                continue
            run = ctx.run(f, m.L, key='M01', **kw)
            n += 1
            isg = unconst(f['ret']) == gt

            def ptrs(kind, st, val, isg=isg):
                if kind == 'return' and isg:
                    return [st.store.get(('X', 'ret', m.f[m.G])) or ('fld', ('X', 'ret', m.f[m.G]), 'k')]
                return []
            guard_balance(ctx, m, run, ctx.fname(f), ptrs, f['loc'])
            if isg:
                # the guard refers to the data of this lessee
                okk = True
                for node, kind, st, val in exits(run):
                    if kind != 'return':
                        continue
                    v = ptrs(kind, st, val)[0]
                    w = fld(st, T + (m.f[m.L],))
                    if v != w and not (isnull(v, st.facts) is True and isnull(w, st.facts) is True):
                        okk = False
                ctx.oblige('guard-refers', okk, ctx.fname(f), f['loc'], 'the guard returned does not refer to the data of this lessee')
            else:
                # a raw pointer or reference to the data does not leave without its lock
                def leaks(st, val):
                    if val is None:
                        return False
                    base = pointee(fld(st, T + (m.f[m.L],)))
                    if val[0] == 'ref' and val[1][:len(base) + 1] == base + (m.ref,):
                        return True
                    for s in symbols(val):
                        if s[0] in ('fld', 'old') and s[1][:len(base) + 1] == base + (m.ref,):
                            return True
                    return False
                if f['ret'].endswith('*') or f['ret'].endswith('&'):
                    lk = [node for node, kind, st, val in exits(run) if kind == 'return' and leaks(st, val) and not st.locks]
                    ctx.oblige('unguarded-result', not lk, ctx.fname(f), f['loc'],
                               'returns a %s to the data after the lock that keeps it alive has been released' % (
                                   'reference' if f['ret'].endswith('&') else 'pointer'), path_to(ctx, run, lk[0]) if lk else ())
        ctx.need(n, 3, 'member functions of LesseePtr')

        g = m.f[m.G]

        def hold(*which):
            def setup(it, st, src=None):
                facts = set(st.facts)
                for w in which:
                    path, nn = (T if w[0] == 't' else src) + (g,), w[1]
                    v = ('fld', path, 'k')
                    facts.add((mk_cmp('==', v, NULL), not nn))
                    if nn:
                        st.locks = st.locks + ((path + ('*', m.mtx), 's', 1),)
                st.facts = frozenset(facts)
            return setup
        # destruction
        for nn in (True, False):
            run = ctx.run_dtor(m.G, key=('M01', nn), setup=hold(('t', nn)), **kw)
            guard_balance(ctx, m, run, 'destruction of a%s guard' % (' non-empty' if nn else 'n empty'), lambda k, st, v: [], ctx.p.records[m.G]['loc'])
        # copies do not exist; moves carry the lock along
        for kind in ('copy_ctor', 'copy_assign'):
            for nn in (True, False):
                for an in ((True, False) if kind == 'copy_assign' else (None,)):
                    hs = [('s', nn)] + ([('t', an)] if an is not None else [])
                    x = ctx.run_special(kind, m.G, key=('M01', nn, an), setup=hold(*hs), **kw)
                    if x is None:
                        continue
                    run, src = x
                    guard_balance(ctx, m, run, 'GuardedPtr ' + kind.replace('_', ' '),
                                  lambda k, st, v, src=src: [fld(st, T + (g,)), fld(st, src + (g,))], run.fn['loc'])
        for kind in ('move_ctor', 'move_assign'):
            for nn in (True, False):
                for an in ((True, False) if kind == 'move_assign' else (None,)):
                    hs = [('s', nn)] + ([('t', an)] if an is not None else [])
                    x = ctx.run_special(kind, m.G, key=('M01', nn, an), setup=hold(*hs), **kw)
                    if x is None:
                        if kind == 'move_ctor':
                            raise AnalysisBroken('GuardedPtr cannot be moved any more')
                        continue
                    run, src = x
                    guard_balance(ctx, m, run, 'GuardedPtr ' + kind.replace('_', ' '),
                                  lambda k, st, v, src=src: [fld(st, T + (g,)), fld(st, src + (g,))], run.fn['loc'])
                    ok = all(self_move(st, src) or same(fld(st, T + (g,)), ('fld', src + (g,), 'k'), st.facts) for _, k, st, _ in exits(run) if k == 'return')
                    ctx.oblige('guard-moved', ok, 'GuardedPtr ' + kind.replace('_', ' '), run.fn['loc'],
                               'the moved-to guard does not refer to the data of the moved-from guard')
        # accesses through the guard designate the data
        for f in ctx.methods(m.G):
            if f.get('kind') in ('ctor', 'dtor') or f['name'] == 'operator=':
                continue
            run = ctx.run(f, m.G, key='M01', setup=lambda it, st: hold(('t', True))(it, st), **kw)
            ok = True
            base = T + (g, '*', m.ref)
            for node, kind, st, val in exits(run):
                if kind != 'return' or val is None:
                    continue
                if f['ret'].endswith('*'):
                    ok = ok and val[0] == 'fld' and val[1] == base
                elif f['ret'].endswith('&'):
                    ok = ok and val[0] == 'ref' and val[1] == base + ('*',)
                elif f['ret'] == 'bool':
                    d = decide(truth(val), st.facts)
                    e = isnull(st.store.get(base) or ('fld', base, st.hv), st.facts)
                    if d not in (True, False):
                        at, pol = dom.atom_of(truth(val))
                        ok = ok and at == mk_cmp('==', st.store.get(base) or ('fld', base, st.hv), NULL) and pol is False
                    else:
                        ok = ok and e is not None and d == (not e)
                if lockset(st) != [(T + (g, '*', m.mtx), 's')]:
                    ok = False
            ctx.oblige('guard-access', ok, ctx.fname(f), f['loc'], 'does not give access to (or report the presence of) the guarded data')


def self_move(st, src):
    return (mk_cmp('==', ('ref', ('this',)), ('ref', src)), True) in st.facts


def same(a, b, facts):
    if a == b:
        return True
    na, nb = isnull(a, facts), isnull(b, facts)
    return na is True and nb is True


def is_deleter_call(m, ev):
    """cbcall of a deleter field, or of anything given the data pointer"""
    v = ev['val']
    for s in symbols(v):
        if s[0] in ('fld', 'old') and s[1][-1] == m.dele:
            return True
    for a in ev.get('args') or ():
        for s in symbols(a):
            if s[0] in ('fld', 'old') and s[1][-1] == m.ref:
                return True
    return False


def deletion_sections(ctx, m, run, where, mtx_of=None):
    """Each deletion: once, of the pointer read under the exclusive lock, which is null when the lock is released."""
    bad = []

    def step(ms, ev):
        sec, refv, calls, due = ms     # (mutex path or None, value of the pointer in the section, calls of the deleter so far)
        k = ev['k']
        if k == 'acquired' and ev['m'][-1] == m.mtx:
            if ev['mode'] != 's':
                rp = ev['m'][:-1] + (m.ref,)
                return [(ev['m'], ('fld', rp, ev['hv']), 0, False)]
            return None
        if k == 'cbcall' and is_deleter_call(m, ev):
            if refv is None:
                return [('!', 'deleter-exclusive', 'the deleter runs without the exclusive lock having been taken: a guard may be using the data', ms)]
            if len(ev['args']) != 1 or ev['args'][0] != refv:
                return [('!', 'deleter-argument', 'the deleter is not given the pointer read under the exclusive lock', ms)]
            if isnull(refv, ev['facts']) is not False:
                return [('!', 'deleter-null', 'the deleter may be called with a null pointer (data already destroyed)', ms)]
            if calls:
                return [('!', 'deleter-once', 'the deleter runs twice for the same data', ms)]
            return [(sec, refv, 1, False)]
        if k == 'release' and sec is not None and ev['m'] == sec:
            cur = ev['store'].get(sec[:-1] + (m.ref,), ('fld', sec[:-1] + (m.ref,), ev['hv']))
            if isnull(cur, ev['facts']) is not True:
                if calls:
                    return [('!', 'deleted-pointer-kept', 'the lock is released while the pointer still refers to the destroyed data', (None, refv, calls, due))]
                return [('!', 'not-destroyed', 'the exclusive lock is released without having destroyed the data', (None, refv, calls, due))]
            # nothing to destroy, or destroyed, or detached and to be destroyed
            d = calls == 0 and isnull(refv, ev['facts']) is not True
            return [(None, refv, calls, d)]
        if k == 'exit' and ev['kind'] == 'return':
            if due and isnull(refv, ev['facts']) is not True:
                return [('!', 'not-destroyed', 'the data is detached but its deleter is never called')]
            if sec is not None:
                return [('!', 'lock-kept', 'returns with the exclusive lock held')]
        return None
    for ru, msg, ev, tr in monitor(ctx, run, (None, None, 0, False), step):
        bad.append(1)
        ctx.oblige(ru, False, where, ev['l'], msg, tr)
    if not bad:
        ctx.oblige('deletion', True, where, run.fn['loc'], '')
    return not bad


def must_section(ctx, m, run, where, ptr_path):
    """On every normal end, unless the owner was empty or its data already destroyed, the data owned on entry was destroyed."""
    v0 = ('fld', ptr_path, 'k')
    mx = ptr_path + ('*', m.mtx)

    def step(ms, ev):
        if ev['k'] == 'acquired' and ev['m'] == mx and ev['mode'] != 's':
            return [True]
        if ev['k'] == 'exit' and not ms and ev['kind'] == 'return':
            if isnull(v0, ev['facts']) is True:
                return None
            for a, p in ev['facts']:
                if p and a[0] == '==' and NULL in a:
                    o = a[1] if a[2] == NULL else a[2]
                    if o[0] in ('fld', 'old') and o[1] == ptr_path + ('*', m.ref):
                        return None
            return [('!', 'owned-data-destroyed', 'the data owned so far is not destroyed')]
        return None
    fs = monitor(ctx, run, False, step)
    if not fs:
        ctx.oblige('owned-data-destroyed', True, where, run.fn['loc'], '')
    for ru, msg, ev, tr in fs:
        ctx.oblige(ru, False, where, ev['l'], msg, tr)


def M02(ctx):
    """unique ownership"""
    for m in families(ctx):
        T = ('this',)
        kw = dict(confined=(T, ('P', 'other'), ('X', 'ret')))
        o = m.f[m.O]
        # the shared data destroys itself at most once and under the lock
        run = ctx.run_dtor(m.D, key='M02')
        deletion_sections(ctx, m, run, 'destruction of the shared data')
        n = 0
        for f in ctx.methods(m.O):
            if f.get('kind') in ('dtor',):
                continue
            if f['name'] == 'operator=' or f.get('kind') == 'ctor':
                continue
            run = ctx.run(f, m.O, key='M02', **kw)
            wr = [ev for ev in run.events('write', 'xchg') if ev['path'] == T + (o,)]
            deletion_sections(ctx, m, run, ctx.fname(f))
            if not wr and f.get('const'):
                continue
            if f['name'] == 'reset':
                n += 1
                must_section(ctx, m, run, ctx.fname(f), T + (o,))
                reset_result(ctx, m, run, f, o)
        ctx.need(n, 2, 'reset overloads of OwnerPtr')
        for f in ctx.ctors(m.O):
            if len(f['params']) != 2:
                continue

            def empty(it, st):
                st.store[T + (o,)] = NULL
            run = ctx.run(f, None, key='M02', **kw)
            reset_result(ctx, m, run, f, o)
        run = ctx.run_dtor(m.O, key='M02', **kw)
        deletion_sections(ctx, m, run, 'destruction of OwnerPtr')
        must_section(ctx, m, run, 'destruction of OwnerPtr', T + (o,))
        x = ctx.run_special('move_assign', m.O, key='M02', **kw)
        if x:
            run, src = x
            deletion_sections(ctx, m, run, 'OwnerPtr move assignment')
            must_section(ctx, m, run, 'OwnerPtr move assignment', T + (o,)) if not any(self_move(st, src) for _, _, st, _ in exits(run)) else \
                must_section_noself(ctx, m, run, 'OwnerPtr move assignment', T + (o,), src)
            moved_owner(ctx, m, run, 'OwnerPtr move assignment', o, src)
        x = ctx.run_special('move_ctor', m.O, key='M02', **kw)
        if x:
            run, src = x
            moved_owner(ctx, m, run, 'OwnerPtr move constructor', o, src)
        for kind in ('copy_ctor', 'copy_assign'):
            x = ctx.run_special(kind, m.O, key='M02', **kw)
            ctx.oblige('not-copyable', x is None, 'OwnerPtr', ctx.p.records[m.O]['loc'], 'an owner can be copied: two owners of the same data')
        # construction of the shared data stores pointer and deleter as given
        for f in ctx.ctors(m.D):
            if len(f['params']) != 2:
                continue
            run = ctx.run(f, None, key='M02', confined=(T,))
            ok = True
            for node, kind, st, val in exits(run):
                r, d = fld(st, T + (m.ref,)), fld(st, T + (m.dele,))
                ok = ok and r == ('p', f['params'][0]['n']) and deleter_is(st, d, f['params'][1]['n'])
            ctx.oblige('shared-data', ok, ctx.fname(f), f['loc'], 'the shared data does not keep the pointer and deleter it was given')
        # owner's and lessee's view of presence
        for c in (m.O, m.L):
            for f in ctx.methods(c):
                if f['ret'] == 'bool' and not f['params']:
                    run = ctx.run(f, c, key='M02', **kw)
                    ok = True
                    pp = T + (m.f[c],)
                    for node, kind, st, val in exits(run):
                        b = decide(truth(val), st.facts) if val is not None else None
                        base = pp + ('*', m.ref)
                        rv = st.store.get(base) or ('fld', base, st.hv)
                        pres = None
                        if isnull(fld(st, pp), st.facts) is True:
                            pres = False
                        elif isnull(rv, st.facts) is not None and isnull(fld(st, pp), st.facts) is False:
                            pres = not isnull(rv, st.facts)
                        if b not in (True, False):
                            at, pol = dom.atom_of(truth(val))
                            ok = ok and at == mk_cmp('==', rv, NULL) and not pol and isnull(fld(st, pp), st.facts) is False
                        else:
                            ok = ok and pres is not None and b == pres
                    ctx.oblige('presence', ok, ctx.fname(f), f['loc'], 'does not report whether the data still exists')
        # refusing access when gone
        for f in ctx.methods(m.L):
            run = ctx.run(f, m.L, key='M02', **kw)
            if f.get('kind') in ('ctor', 'dtor') or f['name'] == 'operator=':
                continue
            thr = [(node, st) for node, kind, st, val in exits(run) if kind == 'throw']
            for node, st in thr:
                ok = st.exc[1] and 'ValueAccessException' in str(st.exc[1])
                ctx.oblige('refusal-type', bool(ok), ctx.fname(f), f['loc'], 'access to data that is gone is refused with %s instead of ValueAccessException' % (st.exc[1],),
                           path_to(ctx, run, node))
            if f['ret'].endswith(('*', '&')) or thr or f['name'] == 'lock_with_exception':
                # a normal return means that the data was present under the lock
                ok = True
                bad = None
                for node, kind, st, val in exits(run):
                    pres = present(m, run, st, T + (m.f[m.L],))
                    if kind == 'return' and pres is not True or kind == 'throw' and pres is True:
                        ok, bad = False, node
                ctx.oblige('access-iff-present', ok, ctx.fname(f), f['loc'], 'does not give access exactly when the data still exists',
                           path_to(ctx, run, bad) if bad is not None else ())
        # lease: the lessee shares the owner's data
        for f in ctx.methods(m.O, 'lease'):
            run = ctx.run(f, m.O, key='M02', **kw)
            ok = all(same(fld(st, ('X', 'ret', m.f[m.L])), fld(st, T + (o,)), st.facts) for _, k, st, _ in exits(run) if k == 'return')
            ctx.oblige('lease', ok, ctx.fname(f), f['loc'], 'the lessee does not refer to the data of its owner')


def present(m, run, st, pp):
    """Whether the data existed, as last observed under the shared lock on this path."""
    if isnull(fld(st, pp), st.facts) is True:
        return False
    for a, p in st.facts:
        if a[0] == '==' and NULL in a:
            o = a[1] if a[2] == NULL else a[2]
            if o[0] in ('fld', 'old') and o[1] == pp + ('*', m.ref) and o[2] != '0':
                return not p
    return None


def deleter_is(st, d, pname):
    if d == ('p', pname):
        return True
    return d[0] in ('fld', 'r', 'alias', 'obj') and pname in str(d)


def reset_result(ctx, m, run, f, o):
    T = ('this',)
    where = ctx.fname(f)
    ps = f['params']
    if not ps:
        ok, bad = True, None
        for node, kind, st, val in exits(run):
            if kind != 'return':
                ok, bad = False, node
                continue
            v = fld(st, T + (o,))
            if isnull(v, st.facts) is True:
                continue
            # kept only when the shared data is itself empty
            base = pointee(v) + (m.ref,)
            if isnull(st.store.get(base) or ('fld', base, st.hv), st.facts) is not True:
                ok, bad = False, node
        ctx.oblige('reset-empties', ok, where, f['loc'], 'the owner still has data after reset()', path_to(ctx, run, bad) if bad is not None else ())
        return
    pn, dn = ps[0]['n'], ps[1]['n']
    pv = ('p', pn)
    res = {}
    for node, kind, st, val in exits(run):
        if not consistent(st.facts):
            continue
        null = isnull(pv, st.facts)
        v = fld(st, T + (o,))
        if kind == 'throw':
            if null is not True:
                res.setdefault('a valid pointer may be rejected', node)
            if 'InitializationException' not in str(st.exc[1]):
                res.setdefault('a null pointer is rejected with %s instead of InitializationException' % (st.exc[1],), node)
            continue
        if null is not False:
            res.setdefault('a null pointer is accepted', node)
            continue
        if v[0] != 'ref':
            res.setdefault('the owner does not hold the new data', node)
            continue
        if st.store.get(v[1] + (m.ref,)) != pv:
            res.setdefault('the owner does not hold the pointer it was given', node)
        if not deleter_is(st, st.store.get(v[1] + (m.dele,), ('none',)), dn):
            res.setdefault('the owner does not keep the deleter it was given', node)
    if not res:
        ctx.oblige('reset-takes', True, where, f['loc'], '')
    for msg, node in res.items():
        ctx.oblige('reset-takes', False, where, f['loc'], msg, path_to(ctx, run, node))


def must_section_noself(ctx, m, run, where, pp, src):
    must_section_filtered(ctx, m, run, where, pp, lambda facts: (mk_cmp('==', ('ref', ('this',)), ('ref', src)), True) in facts)


def must_section_filtered(ctx, m, run, where, pp, skip):
    v0 = ('fld', pp, 'k')
    mx = pp + ('*', m.mtx)

    def step(ms, ev):
        if ev['k'] == 'acquired' and ev['m'] == mx and ev['mode'] != 's':
            return [True]
        if ev['k'] == 'exit' and not ms and ev['kind'] == 'return':
            if skip(ev['facts']) or isnull(v0, ev['facts']) is True:
                return None
            for a, p in ev['facts']:
                if p and a[0] == '==' and NULL in a:
                    x = a[1] if a[2] == NULL else a[2]
                    if x[0] in ('fld', 'old') and x[1] == pp + ('*', m.ref):
                        return None
            return [('!', 'owned-data-destroyed', 'the data owned so far is not destroyed')]
        return None
    fs = monitor(ctx, run, False, step)
    if not fs:
        ctx.oblige('owned-data-destroyed', True, where, run.fn['loc'], '')
    for ru, msg, ev, tr in fs:
        ctx.oblige(ru, False, where, ev['l'], msg, tr)


def moved_owner(ctx, m, run, where, o, src):
    T = ('this',)
    bad = {}
    for node, kind, st, val in exits(run):
        if kind != 'return' or self_move(st, src):
            continue
        a, b = fld(st, T + (o,)), fld(st, src + (o,))
        s0 = ('fld', src + (o,), 'k')
        if not same(a, s0, st.facts):
            bad.setdefault('the moved-to owner does not own the data of the moved-from owner', node)
        if isnull(b, st.facts) is not True and b == a:
            bad.setdefault('the moved-from owner still owns the data: it would be destroyed while the other owner uses it', node)
    if not bad:
        ctx.oblige('moved', True, where, run.fn['loc'], '')
    for msg, node in bad.items():
        ctx.oblige('moved', False, where, run.fn['loc'], msg, path_to(ctx, run, node))


def M03(ctx):
    """Heritable: one shared object, destroyed once as what it was created; comparisons and casts look at the object"""
    T = ('this',)
    n = 0
    conv = 0
    for r in ctx.cls('Heritable'):
        cls = r['u']
        fs = [f['name'] for _, f in ctx.p.all_fields(cls) if unconst(f['t']).startswith('std::shared_ptr<')]
        if len(fs) != 1:
            raise AnalysisBroken('Heritable does not hold one shared pointer')
        dp = fs[0]
        E = r['ta'][0]
        kw = dict(confined=(T, ('P', 'other'), ('X', 'ret')))
        todo = []
        for f in ctx.ctors(cls):
            if len(f['params']) == 1:
                todo.append((f, None))
        for f in ctx.methods(cls, 'operator='):
            todo.append((f, cls))
        seen = set()
        for f, c in todo:
            if f['u'] in seen:
                continue
            seen.add(f['u'])
            run = ctx.run(f, c, key='M03', **kw)
            n += 1
            prm = f['params'][0]
            own = [ev for ev in run.events('own')]
            for ev in own:
                a = ev.get('arg')
                pts = None
                # pointer given to the new owner: its static type is the type it will be deleted as
                at = unconst(a.get('t', '')) if a else ''
                given = given_type(ctx, ev)
                if at.endswith('*') and given and given.endswith('*'):
                    ctx.oblige('deleted-as-created', at == given, ctx.fname(f), ev['l'],
                               'the object is adopted as %s although it was created as %s: it would be deleted as the wrong type' % (given, at))
            bad = {}
            isptr = prm['t'].endswith('*')
            for node, kind, st, val in exits(run):
                if kind != 'return':
                    bad.setdefault('may throw', node)
                    continue
                v = fld(st, T + (dp,))
                src = ('P', prm['n'] or 'arg0')
                if self_move(st, src):
                    continue
                want = ('p', prm['n']) if isptr else ('fld', src + (dp,), 'k')
                if v != want:
                    bad.setdefault('does not refer to the object it was given', node)
            # sharing goes through the shared pointer: adopting a raw pointer twice would delete it twice
            for ev in own:
                a = ev.get('arg') or {}
                if not isptr and unconst(a.get('t', '')).endswith('*'):
                    bad.setdefault('adopts the raw pointer of another owner: the object would be destroyed twice', None)
            where = '%s(%s)' % (ctx.fname(f), prm['t'].replace('eprosima::utils::', ''))
            if not bad:
                ctx.oblige('shares', True, where, f['loc'], '')
            for msg, node in bad.items():
                ctx.oblige('shares', False, where, f['loc'], msg, path_to(ctx, run, node) if node is not None else ())
        for f in ctx.methods(cls):
            nm = f['name']
            if nm in ('operator==', 'operator<', 'operator!=', 'operator>', 'operator<=', 'operator>=') and len(f['params']) == 1:
                run = ctx.run(f, cls, key='M03', **kw)
                src = ('P', f['params'][0]['n'] or 'arg0')
                obj = T + (dp, '*')
                oth = src if strip_t(unconst(f['params'][0]['t'])) != 'eprosima::utils::Heritable' else src + (dp, '*')
                ok = True
                for node, kind, st, val in exits(run):
                    at, pol = dom.atom_of(truth(val)) if val is not None else (None, None)
                    res = compare_of(run, at)
                    ok = ok and kind == 'return' and res is not None
                    if res is None:
                        continue
                    op, l, rr = res
                    ok = ok and agrees(nm, op, pol, l == obj and rr == oth, l == oth and rr == obj)
                ctx.oblige('compares-objects', ok, '%s(%s)' % (ctx.fname(f), f['params'][0]['t'].replace('eprosima::utils::', '')), f['loc'],
                           'the result is not the comparison of the objects referred to')
            elif f['ret'].endswith('&') and f['kind'] == 'method' and nm != 'operator=' or f['ret'].endswith('*'):
                run = ctx.run(f, cls, key='M03', **kw)
                ok = True
                for node, kind, st, val in exits(run):
                    if kind == 'throw':
                        ok = ok and st.exc[1] == 'std::bad_cast' and 'cast' in str([e['k'] for e in run.events('dyncast')])
                        continue
                    tgt = val[1] if val[0] == 'ref' else pointee(val)
                    ok = ok and tgt == T + (dp, '*')
                ctx.oblige('access', ok, ctx.fname(f), f['loc'], 'does not give access to the object')
                t = unconst(f['ret'][:-1])
                if f.get('ta'):
                    # a cast to another class is checked at run time
                    conv += 1
                    ts = {unconst(e['t']) for e in run.events('dyncast')}
                    ctx.oblige('checked-cast', ts == {t}, ctx.fname(f), f['loc'], 'an object is presented as %s without checking that it is one' % t)
            elif f['ret'] == 'bool' and f.get('ta') and not f['params']:
                run = ctx.run(f, cls, key='M03', **kw)
                conv += 1
                ok = cast_reported(ctx, run, f['ta'][0], T + (dp, '*'))
                ctx.oblige('can-cast', ok, ctx.fname(f), f['loc'], 'does not report whether the object is of the requested class')
    ctx.need(n, 4, 'constructors and assignments of Heritable')
    # cast.hpp: can_cast
    for f in ctx.p.functions.values():
        if f['kind'] == 'func' and strip_t(f['q']) == NS + 'can_cast' and f.get('body') is not None:
            run = ctx.run(f, None, key='M03')
            ok = cast_reported(ctx, run, f['ta'][0], ('P', f['params'][0]['n']))
            ctx.oblige('can-cast', ok, ctx.fname(f), f['loc'], 'does not report whether the object is of the requested class')
            conv += 1
    ctx.need(conv, 2, 'casts')


def given_type(ctx, ev):
    """The pointer type with which a smart pointer adopts its object (parameter type of the chosen constructor)."""
    e = ev.get('node') or {}
    f = e.get('f') or {}
    pts = f.get('pt') or []
    return unconst(pts[0]) if pts else None


def compare_of(run, at):
    """('==' | '<', left path, right path) of an opaque comparison operator call whose result is `at`"""
    if at is None:
        return None
    for ev in run.events('call'):
        if at[0] == 'r' and len(at) > 2 and ev.get('i') == at[2] and ev['sq'].split('::')[-1].startswith('operator'):
            op = ev['sq'].split('::operator')[-1]
            refs = [r for r in ev['refs'] if r is not None]
            if ev['obj'] is not None:
                refs = [ev['obj']] + refs
            if len(refs) == 2:
                return op, refs[0], refs[1]
    return None


def agrees(name, op, pol, straight, crossed):
    want = name.replace('operator', '')
    neg_ = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
    flip = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
    if not pol:
        op = neg_.get(op)
    if straight and op == want:
        return True
    if crossed and flip.get(op) == want:
        return True
    return False


def cast_reported(ctx, run, t, obj):
    ok = True
    seen = set()
    for node, kind, st, val in exits(run):
        if kind != 'return':
            ok = False

    def step(ms, ev):
        if ev['k'] == 'dyncast' and unconst(unconst(ev['t']).rstrip('*').strip()) == unconst(t) and ev['path'] == obj:
            return ['y' if ev['ok'] else 'n']
        if ev['k'] == 'exit':
            v = ev['val']
            b = decide(truth(v), ev['facts']) if v is not None else None
            if ms is None or b is None or b != (ms == 'y'):
                return [('!', 'x', 'x')]
            seen.add(ms)
        return None
    return ok and not monitor(ctx, run, None, step) and seen == {'y', 'n'}
