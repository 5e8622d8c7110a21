"""Database, pool, thread pool, command history."""
import dom
from dom import C0, C1, NULL, const, decide, mk_cmp, neg, truth
from facts import AnalysisBroken
from interp import fmt_path, unconst
from lib import NS, assume_all, monitor, path_to, short_val
from p_misc import RET, T, designates, func, get, inst, k, post, pv, result, runc, table
from p_types import is_fld, ptype
from stdmodel import found_atom, whole


# ------------------------------------------------------------------ SafeDatabase
def D01(ctx):
    """database"""
    n = 0
    for r in ctx.cls('SafeDatabase'):
        c = r['u']
        nm = 'SafeDatabase'
        fs = [f for _, f in ctx.p.all_fields(c)]
        maps = [f['name'] for f in fs if f['t'].startswith(('std::map<', 'std::unordered_map<'))]
        mtx = [f['name'] for f in fs if 'mutex' in f['t']]
        if len(maps) != 1 or len(mtx) != 1:
            raise AnalysisBroken('a database does not consist of one map and one mutex any more')
        IN, MU = T + (maps[0],), T + (mtx[0],)
        for f in ctx.methods(c):
            if f.get('kind') == 'dtor' or f.get('implicit'):
                continue
            where = '%s::%s' % (nm, f['name'])
            ps = tuple(('P', pv(f, i)) for i in range(len(f['params'])))
            # --- locks
            run = ctx.run(f, c, key='db', confined=ps + (RET,))
            bad = None
            for ev in run.events('read', 'write', 'cread', 'cmut', 'ewrite', 'xchg'):
                p = ev.get('path')
                if p is None or p[:2] != IN:
                    continue
                w = ev['k'] in ('write', 'cmut', 'ewrite', 'xchg')
                modes = {x[1] for x in ev['locks'] if x[0] == MU}
                if not modes or w and 'x' not in modes:
                    bad = bad or ev
            n += 1
            ctx.oblige('guarded', bad is None, where, bad['l'] if bad else f['loc'],
                       'the map is %s without holding the mutex%s' % (('changed', ' for writing') if bad and bad['k'] not in ('read', 'cread') else ('read', '')))
            if f['name'] in ('find', 'begin', 'end'):
                iter_result(ctx, runc(ctx, f, c, key='dbc'), IN, MU, f, where)
            elif f['name'] in ('add', 'modify', 'add_or_modify', 'erase', 'is', 'at', 'size'):
                db_result(ctx, run, IN, f, where)
    for r in ctx.cls('SafeDatabaseIterator'):
        c = r['u']
        where = 'SafeDatabaseIterator'
        refs = [f for _, f in ctx.p.all_fields(c) if 'mutex' in f['t']]
        if len(refs) != 1:
            raise AnalysisBroken('the iterator does not refer to one mutex any more')
        mf = refs[0]['name']
        def take(run, mutex, want, what):
            bad = None
            for node, kind, st, val in run.g.exits:
                if kind != 'return':
                    continue
                held = {}
                for p, m, cnt in st.locks:
                    held[(p, m)] = held.get((p, m), 0) + cnt
                for ev in ():
                    pass
                if {x: y for x, y in held.items() if y} != {(m, 's'): cnt for m, cnt in ((mutex(st), want),) if cnt}:
                    bad = bad or node
            ctx.oblige('held', bad is None, where, run.fn['loc'], what, path_to(ctx, run, bad) if bad is not None else ())
        for f in ctx.ctors(c):
            if f.get('implicit') or len(f['params']) != 2:
                continue
            n += 1
            run = runc(ctx, f, c)
            m = [('P', pv(f, i)) for i in range(2) if 'mutex' in f['params'][i]['t']]
            take(run, lambda st: m[0], 1, 'the iterator does not hold exactly one shared lock of the mutex it is given')
            ok = bool(run.g.exits) and all(st.store.get(T + (mf,)) == ('alias', m[0]) for _, kd, st, _ in run.g.exits)
            ctx.oblige('held', ok, where, f['loc'], 'the iterator does not remember the mutex it has locked')
        for kind in ('copy_ctor', 'move_ctor', 'copy_assign', 'move_assign'):
            sp = ctx.run_special(kind, c, key='db')
            if sp is None:
                continue
            n += 1
            run, src = sp
            if kind.endswith('assign'):
                ctx.oblige('held', False, where, run.fn['loc'], 'an iterator can be assigned: the locks held are not followed any more')
                continue
            names = {src + (mf,), T + (mf,)}
            bad = None
            for node, kd, st, val in run.g.exits:
                v = st.store.get(T + (mf,))
                me = v[1] if v and v[0] == 'alias' else T + (mf,)
                held = [(p, m, cnt) for p, m, cnt in st.locks]
                if kd == 'return' and not (len(held) == 1 and held[0][1:] == ('s', 1) and held[0][0] in (me, src + (mf,))):
                    bad = bad or node
                    if bad is None:
                        bad = node
            ctx.oblige('held', bad is None, where, run.fn['loc'], 'a copy of an iterator does not take a lock of its own, although each iterator releases one when destroyed',
                       path_to(ctx, run, bad) if bad is not None else ())
        n += 1
        run = ctx.run_dtor(c, key='db', setup=lambda it, st: setattr(st, 'locks', ((T + (mf,), 's', 1),)))
        ok = bool(run.g.exits) and all(not st.locks and kd == 'return' for _, kd, st, _ in run.g.exits) and not [1 for ev in run.events('bad_unlock', 'unlock_unheld')]
        ctx.oblige('held', ok, where, run.fn['loc'], 'the destructor does not release exactly the shared lock the iterator holds')
    ctx.need(n, 14, 'operations of the database and its iterator')


def iter_result(ctx, run, IN, MU, f, where):
    OLD = k(*IN)
    bad = None
    for node, kind, st, val in run.g.exits:
        v = result(st, val)
        if kind != 'return':
            bad = bad or (node, 'ends with an exception')
            continue
        if f['name'] == 'find':
            want = ('it', IN, ('find', (k('P', pv(f, 0)),)), OLD)
            nf = neg(found_atom(IN, (k('P', pv(f, 0)),), OLD))
            ok = v == want or v == ('it', IN, 'end', OLD) and decide(nf, st.facts) is True
        else:
            ok = v == ('it', IN, f['name'], OLD)
        if not ok:
            bad = bad or (node, 'the iterator does not designate the right element')
        if get(st, IN) != OLD:
            bad = bad or (node, 'changes the contents')
        held = [x for x in st.locks if x[2]]
        if held != [(MU, 's', 1)]:
            bad = bad or (node, 'does not leave exactly one shared lock with the iterator returned')
        al = st.store.get((val[1] if val and val[0] == 'obj' else RET) + ('mutex_',))
        if al is not None and al != ('alias', MU):
            bad = bad or (node, 'the iterator does not hold the mutex of the database')
    ok = bad is None and run.g.exits
    ctx.oblige('result', bool(ok), where, f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad else ())


def db_result(ctx, run, IN, f, where):
    name = f['name']
    bad = None
    np = len(f['params'])
    for node, kind, st, val in run.g.exits:
        OLD = ('fld', IN, st.hv)
        key = k('P', pv(f, 0)) if np else None
        cur = st.store.get(IN)
        same = cur in (None, OLD)
        for fd in (True, False) if np else (None,):
            fa = st.facts if fd is None else assume_all(st.facts, [(found_atom(IN, (key,), OLD), fd)])
            if fa is None:
                continue

            def ret(b):
                return kind == 'return' and val is not None and decide(truth(val), fa) is b

            def stored():
                if st.store.get(IN + ('%key',)) != key:
                    return False
                el = IN + ('[]', 'second')
                sub = {p: x for p, x in st.store.items() if p[:len(el)] == el}
                P = ('P', pv(f, 1))
                return bool(sub) and all(x[0] == 'fld' and x[1] == P + p[len(el):] for p, x in sub.items())

            def fail(msg):
                nonlocal bad
                bad = bad or (node, msg + (' when the key is %sthere' % ('' if fd else 'not ') if fd is not None else ''))
            untouched = same and not any(p[:3] == IN + ('[]',) and not (x[0] == 'fld' and x[1] == p) for p, x in st.store.items())
            grown = cur is not None and cur[0] == 'mut' and cur[1] in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'idx', 'emplace_hint')
            if name == 'add':
                if fd and not (ret(False) and untouched):
                    fail('add must refuse and change nothing')
                if not fd and not (ret(True) and grown and stored()):
                    fail('add must store the value and return true')
            elif name == 'modify':
                if fd and not (ret(True) and (same or grown) and stored()):
                    fail('modify must replace the value and return true')
                if not fd and not (ret(False) and untouched):
                    fail('modify must refuse and change nothing')
            elif name == 'add_or_modify':
                if fd and not (ret(False) and (same or grown) and stored()):
                    fail('add_or_modify must replace the value and return false')
                if not fd and not (ret(True) and grown and stored()):
                    fail('add_or_modify must store the value and return true')
            elif name == 'erase':
                if fd and not (ret(True) and cur is not None and cur[:2] == ('mut', 'erase')):
                    fail('erase must remove the element and return true')
                if not fd and not (ret(False) and untouched):
                    fail('erase must change nothing and return false')
            elif name == 'is':
                if not (ret(fd) and untouched):
                    fail('wrong answer')
            elif name == 'at':
                v = result(st, val)
                if fd:
                    R = val[1] if val and val[0] == 'obj' else RET
                    el = IN + ('[]', 'second')
                    sub = {p: x for p, x in st.store.items() if p[:len(R)] == R and p[-1] != '%cls'}
                    got = kind == 'return' and st.store.get(IN + ('%key',)) == key and bool(sub) and all(x[0] == 'fld' and x[1] == el + p[len(R):] for p, x in sub.items())
                    if not (got and untouched):
                        fail('does not return the value stored')
                elif not (kind == 'throw' and st.exc and str(st.exc[1]).endswith('out_of_range')):
                    fail('does not throw out_of_range')
            elif name == 'size':
                if not (kind == 'return' and val == ('size', OLD) and untouched):
                    fail('does not return the number of elements')
        if any(x[2] for x in st.locks):
            bad = bad or (node, 'leaves the mutex locked')
    ops = [ev for ev in run.events('cmut') if ev['path'] == IN]
    keys = set()
    for ev in ops:
        nmv = ev['name']
        a = ev['args']
        kk = a[0] if a else None
        if kk and kk[0] == 'pair':
            kk = kk[1]
        if kk and kk[0] == 'it':
            kk = kk[2][1][0] if isinstance(kk[2], tuple) and kk[2][0] == 'find' and len(kk[2][1]) == 1 else None
        if np == 0 or not is_fld(kk, ('P', pv(f, 0))):
            bad = bad or (None, 'an element other than that of the key is changed')
    ok = bad is None and run.g.exits
    ctx.oblige('result', bool(ok), where, f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad and bad[0] is not None else ())


# ------------------------------------------------------------------ UnboundedPool
def Q01(ctx):
    """pool"""
    rs = [r for r in ctx.p.records.values() if r['q'].endswith('::vt_use::Pool')]
    if len(rs) != 1:
        raise AnalysisBroken('the witness of a pool is gone')
    c = rs[0]['u']
    fl = [f for _, f in ctx.p.all_fields(c)]
    vec = [f['name'] for f in fl if f['t'].startswith(('std::vector<', 'std::deque<', 'std::list<'))]
    cnt = [f['name'] for f in fl if f['t'] in ('unsigned int', 'unsigned long', 'int')]
    cfg = [f['name'] for f in fl if f['t'].endswith('PoolConfiguration')]
    if len(vec) != 1 or len(cnt) != 1 or len(cfg) != 1:
        raise AnalysisBroken('a pool does not consist of elements, a count and a configuration any more')
    EL, RES, CF = T + (vec[0],), T + (cnt[0],), T + (cfg[0],)
    BATCH = CF + ('batch_size',)
    n = 0

    def fresh(v):
        return v is not None and v[0] == 'r' and v[1] == 'new_element_'

    def step(ms, ev):
        # ms: a new element not stored yet, stored, end of the free elements just read, taken, reset, returned, deleted in this iteration (None outside)
        pend, made, end, taken, reset, back, dele = ms
        kd = ev['k']
        if kd == 'call' and ev['sq'].endswith('new_element_'):
            out = [('!', 'elements', 'loses a new element', (True, made, None, taken, reset, back, dele))] if pend else []
            return out + [(True, made, None, taken, reset, back, dele)]
        if kd == 'call' and ev['sq'].endswith('reset_element_'):
            return [(pend, made, end, taken, ev['args'][0] if ev['args'] else None, back, dele)]
        if kd == 'new' and ev.get('t', '').startswith('vt::Elem'):
            return [('!', 'elements', 'creates an element otherwise than with new_element_', ms)]
        if kd == 'elem' and ev['path'] == EL:
            if ev['empty'] is not False:
                return [('!', 'elements', 'takes an element although there may be none', (pend, made, ev['name'], taken, reset, back, dele))]
            return [(pend, made, ev['name'], taken, reset, back, dele)]
        if kd == 'cread' and ev['path'] == EL and ev['name'] in ('operator[]', 'at') and len(ev['args']) == 1:
            a = ev['args'][0]
            last = a == dom.add(('size', ev['cval']), -1)
            return [(pend, made, 'back' if last else 'front' if a == C0 else None, taken, reset, back, dele)]
        if kd == 'cmut' and ev['path'] == EL:
            nm, a = ev['name'], ev['args']
            if nm in ('push_back', 'emplace_back', 'push_front', 'emplace_front') and len(a) == 1:
                if pend and fresh(a[0]):
                    return [(False, min(made + 1, 12), None, taken, reset, back, dele)]
                if is_fld(a[0], ('P', 'element')) or a[0] == ('p', 'element') or is_fld(a[0], ('P', ARG[0])):
                    out = []
                    if reset != a[0]:
                        out.append(('!', 'elements', 'an element becomes free without having been reset', (pend, made, None, taken, None, back + 1, dele)))
                    return out + [(pend, made, None, taken, None, min(back + 1, 3), dele)]
                return [('!', 'elements', 'stores as free something that is neither new nor returned', ms)]
            if nm in ('pop_back', 'pop_front') or nm == 'erase' and len(a) == 1 and a[0][:3] in (('it', EL, 'begin'),):
                want = 'back' if nm == 'pop_back' else 'front'
                if end != want:
                    return [('!', 'elements', 'removes another element than the one it gives', (pend, made, None, taken + 1, reset, back, dele))]
                return [(pend, made, None, min(taken + 1, 3), reset, back, dele)]
            if nm in ('reserve', 'shrink_to_fit'):
                return None
            return [('!', 'elements', 'changes the free elements in another way', ms)]
        return None

    ARG = ['element']

    def judge(run, where, fn, final):
        bad = []
        for ru, msg, ev, tr in monitor(ctx, run, (False, 0, None, 0, None, 0, None), step, final=final):
            bad.append(1)
            ctx.oblige(ru, False, where, ev['l'] if ev is not None else fn['loc'], msg, tr)
        if not bad:
            ctx.oblige('elements', True, where, fn['loc'], '')

    # --- construction
    ct = [f for f in ctx.ctors(c) if not f.get('implicit') and len(f['params']) == 1 and 'PoolConfiguration' in f['params'][0]['t'] and '&' not in f['params'][0]['t']]
    ctx.need(len(ct), 1, 'constructors of the pool')
    for f in ct:
        P = ('?', ('p', pv(f, 0)))
        for size in (0, 1, 2):
            n += 1

            def setup(it, st):
                fa = assume_all(st.facts, [(mk_cmp('==', k(*(P + ('initial_size',))), const(size)), True)])
                st.facts = fa
            run = runc(ctx, f, c, key='pool%d' % size, setup=setup)

            def final(ms, kind, st, val):
                for asg in (True, False):
                    fa = assume_all(st.facts, [(mk_cmp('<', k(*(P + ('batch_size',))), C1), asg)])
                    if fa is None:
                        continue
                    if asg and not (kind == 'throw' and st.exc and str(st.exc[1]).endswith('InitializationException')):
                        return ('config', 'does not refuse a batch size of 0')
                    if not asg:
                        if kind != 'return':
                            return ('config', 'refuses a right configuration')
                        if get(st, BATCH) != k(*(P + ('batch_size',))):
                            return ('config', 'does not keep the batch size')
                        if ms[0] or ms[1] != size or decide(mk_cmp('==', get(st, RES), const(size)), fa) is not True:
                            return ('count', 'the pool does not start with (and count) the initial number of elements')
            judge(run, 'UnboundedPool::UnboundedPool', f, final)
    # --- loan
    for f in ctx.methods(c, 'loan'):
        out = ('P', pv(f, 0))
        for size in (1, 2, 1000003):
            n += 1

            def setup(it, st):
                st.store[BATCH] = const(size)
            run = runc(ctx, f, c, key='pool%s' % size, setup=setup)
            emp = mk_cmp('==', ('size', k(*EL)), C0)

            def final(ms, kind, st, val):
                if kind != 'return' or decide(truth(val), st.facts) is not True:
                    return ('loan', 'does not succeed')
                if ms[3] != 1:
                    return ('loan', 'does not remove the element it gives from the free ones' if not ms[3] else 'removes more elements than the one it gives')
                v = get(st, out)
                if not (is_fld(v, EL + ('[]',)) or fresh(v)):
                    return ('loan', 'does not give one of the free elements')
                for e in (True, False):
                    if assume_all(st.facts, [(emp, e)]) is None:
                        continue
                    more = 0 if not e else size
                    want = k(*RES) if not more else ('+', k(*RES), const(more))
                    if ms[1] != more or ms[0]:
                        return ('count', 'does not add a batch of elements exactly when there are no free ones')
                    if get(st, RES) != want:
                        return ('count', 'the count of elements is not increased by the number created')
            if size > 3:
                # more than are followed one by one: the count, as far as it is not the sum of a loop
                ok = True
                for node, kind, st, val in run.g.exits:
                    v = get(st, RES)
                    if assume_all(st.facts, [(emp, False)]) is None and 'wid' not in str(v):
                        few = v[0] == '+' and len(v) == 3 and v[1] == k(*RES) and v[2][0] == 'c' and 0 < v[2][1] <= 4
                        ok = ok and (few or v == ('+', k(*RES), const(size)))
                ctx.oblige('count', ok, 'UnboundedPool::loan', f['loc'], 'the count of elements does not grow by the batch')
                continue
            judge(run, 'UnboundedPool::loan', f, final)
    # --- return
    for f in ctx.methods(c, 'return_loan'):
        n += 1
        ARG[0] = pv(f, 0)
        size = ('size', k(*EL))
        run = runc(ctx, f, c, key='pool')

        def final(ms, kind, st, val):
            for full in (True, False):
                fa = assume_all(st.facts, [(mk_cmp('==', k(*RES), size), full)] + ([] if full else [(mk_cmp('<', size, k(*RES)), True)]))
                if fa is None or not dom.consistent(fa):
                    continue
                if full:
                    if not (kind == 'throw' and st.exc and str(st.exc[1]).endswith('InconsistencyException')) or ms[5] or ms[4]:
                        return ('return', 'does not refuse an element when none is loaned')
                elif kind != 'return' or decide(truth(val), fa) is not True or ms[5] != 1:
                    return ('return', 'does not take the element back exactly once')
                if get(st, RES) != k(*RES):
                    return ('count', 'changes the count of elements')
        judge(run, 'UnboundedPool::return_loan', f, final)
    # --- destruction
    n += 1
    run = ctx.run_dtor(c, key='pool', confined=(T,))

    def dstep(ms, ev):
        # ms: in an iteration (None no, 0 nothing deleted yet, 1 deleted), finished
        it, done = ms
        if ev['k'] in ('iter', 'iterend') and ev.get('path') == EL:
            out = [('!', 'destroy', 'does not delete a free element', (None, done))] if it == 0 else []
            return out + [(0, done) if ev['k'] == 'iter' else (None, True)]
        if ev['k'] == 'delete' and ev.get('path', ())[:len(EL)] == EL or ev['k'] == 'delete' and is_fld(ev.get('val'), EL + ('[]',)):
            if it == 1:
                return [('!', 'destroy', 'deletes a free element twice', ms)]
            return [(1, done)]
        if ev['k'] == 'cmut' and ev['path'] == EL and ev['name'] in ('pop_back', 'pop_front', 'erase'):
            return [('!', 'destroy', 'drops a free element without deleting it', (None, done))] if it != 1 else [(None, done)]
        if ev['k'] == 'destroy_member' and ev['path'] == EL and ev.get('empty') is True:
            return [(it, True)]
        return None

    def dfinal(ms, kind, st, val):
        if kind != 'return':
            return ('destroy', 'ends with an exception')
        emp = decide(mk_cmp('==', ('size', get(st, EL)), C0), st.facts)
        if not ms[1] and emp is not True or ms[0] is not None and not ms[1]:
            return ('destroy', 'does not go through all the free elements')

    bad = []
    for ru, msg, ev, tr in monitor(ctx, run, (None, False), dstep, final=dfinal):
        bad.append(1)
        ctx.oblige(ru, False, 'UnboundedPool::~UnboundedPool', ev['l'] if ev is not None else run.fn['loc'], msg, tr)
    if not bad:
        ctx.oblige('destroy', True, 'UnboundedPool::~UnboundedPool', run.fn['loc'], '')
    ctx.need(n, 7, 'operations of the pool')


# ------------------------------------------------------------------ SlotThreadPool
def T01(ctx):
    """threadpool"""
    n = 0
    for r in ctx.cls('SlotThreadPool'):
        c = r['u']
        fl = [f for _, f in ctx.p.all_fields(c)]

        def pick(what, test):
            x = [f['name'] for f in fl if test(f['t'])]
            if len(x) != 1:
                raise AnalysisBroken('a thread pool has %d members that look like %s' % (len(x), what))
            return T + (x[0],)
        QU = pick('its queue', lambda t: 'WaitHandler<' in t)
        SL = pick('its slots', lambda t: t.startswith(('std::map<', 'std::unordered_map<')))
        TH = pick('its threads', lambda t: t.startswith(('std::vector<', 'std::list<', 'std::deque<')))
        MU = pick('its mutex', lambda t: t.startswith(('std::mutex', 'std::recursive_mutex', 'std::shared')))
        EN = pick('its state', lambda t: t.startswith('std::atomic<bool') or t in ('bool', 'std::atomic_bool', 'std::atomic_flag'))
        NT = pick('its number of threads', lambda t: unconst(t) in ('unsigned int', 'unsigned long', 'int'))
        worker = [m['u'] for m in r['methods'] if m['kind'] == 'method' and not m.get('params') and m['access'] != 0]
        allm = [ctx.p.fn(m['u']) for m in r['methods'] if m['kind'] in ('method', 'ctor', 'dtor')]
        allm = [f for f in allm if f is not None and f.get('body') is not None]

        def opaque(fn):
            return (fn.get('cq') or fn['q']).startswith(NS + 'event::')

        def running(f, key, still=False, state=None, threads=None, empty=None):
            def setup(it, st):
                if state is not None:
                    st.store[EN] = state
                if threads is not None:
                    st.store[NT] = const(threads)
                if empty:
                    st.store[TH] = ('emptyc',)
            return ctx.run(f, c if f.get('kind') != 'ctor' else None, key=key, setup=setup, opaque=opaque, still=still, running=(TH,),
                           confined=(T, RET) + tuple(('P', x['n']) for x in f['params']))

        def names(ev):
            return ev['sq'].split('::')[-1] if ev['k'] == 'call' and ev.get('obj') == QU else None

        # --- which function do the threads run
        starts = set()
        for f in ctx.methods(c, 'enable'):
            for ev in running(f, 'tp').events('spawn', 'cmut'):
                t = ev.get('target')
                if ev['k'] == 'cmut' and ev['path'] == TH and ev['args']:
                    a = ev['args']
                    t = ('bind', a[0][1], tuple(a[1:])) if a[0][0] == 'fnp' else a[0] if a[0][0] in ('bind', 'clos') else None
                if t is not None and t[0] != 'thread':
                    starts.add(t)
        # --- slots under the mutex, never erased
        for f in allm:
            if f['kind'] == 'dtor' or f['kind'] == 'ctor':
                continue
            if f['name'] in ('enable', 'disable') or f.get('implicit'):
                continue
            n += 1
            run = running(f, 'tp')
            bad = None
            for ev in run.events('read', 'write', 'cread', 'cmut', 'ewrite', 'xchg', 'invoke'):
                p = ev.get('path')
                if p is None or p[:2] != SL:
                    continue
                if len(p) > 2:
                    # an element: tasks stay where they are
                    if ev['k'] not in ('write', 'ewrite', 'xchg'):
                        continue
                if not any(x[0] == MU for x in ev['locks']):
                    bad = bad or (ev, 'the slots are accessed without holding the mutex')
                if ev['k'] == 'cmut' and ev['name'] not in ('insert', 'emplace', 'try_emplace', 'operator[]', 'emplace_hint', 'insert_or_assign', 'reserve', 'rehash'):
                    bad = bad or (ev, 'slots are removed or replaced while a thread may be executing them')
            for node, kind, st, val in run.g.exits:
                if any(x[2] for x in st.locks):
                    bad = bad or ({'l': f['loc']}, 'returns holding a lock')
            ctx.oblige('slots', bad is None, 'SlotThreadPool::%s' % f['name'], bad[0]['l'] if bad else f['loc'], bad[1] if bad else '')
        # --- emit and slot
        for f in ctx.methods(c, 'emit'):
            n += 1
            where = 'SlotThreadPool::emit'
            ID = k('P', pv(f, 0))
            run = running(f, 'tp')

            def step(ms, ev):
                nm = names(ev)
                x = element(ev, SL)
                if x:
                    return [(ms[0], x[0] == ID)]
                if nm is None:
                    return None
                if nm == 'produce':
                    nx = (min(ms[0] + 1, 2), ms[1])
                    if len(ev['args']) != 1 or not same_id(ev['args'][0], ID, SL) or ev['args'][0] != ID and not ms[1]:
                        return [('!', 'emit', 'something else than the given task id is put in the queue', nx)]
                    return [nx]
                return None

            def final(ms, kind, st, val):
                for fd in (True, False):
                    if assume_all(st.facts, [(found_atom(SL, (ID,), k(*SL)), fd)]) is None:
                        continue
                    if fd and (kind != 'return' or ms[0] != 1):
                        return ('emit', 'a registered id is not put in the queue exactly once')
                    if not fd and (kind != 'throw' or not str(st.exc[1]).endswith('ValueNotAllowedException') or ms[0]):
                        return ('emit', 'an unknown id is not refused with ValueNotAllowedException')
                if ctx_changed(st, SL):
                    return ('emit', 'changes the slots')
            judge(ctx, run, where, f, (0, True), step, final, 'emit')
        for f in ctx.methods(c, 'slot'):
            n += 1
            ID, TA = k('P', pv(f, 0)), k('P', pv(f, 1))
            run = running(f, 'tp')

            def final(ms, kind, st, val):
                for fd in (True, False):
                    if assume_all(st.facts, [(found_atom(SL, (ID,), k(*SL)), fd)]) is None:
                        continue
                    if fd and (kind != 'throw' or not str(st.exc[1]).endswith('ValueNotAllowedException') or ms == 2 or ctx_changed(st, SL)):
                        return ('slot', 'a used id is not refused with ValueNotAllowedException')
                    if not fd:
                        if kind != 'return' or ms != 1:
                            return ('slot', 'the task is not stored exactly once')
                        if get(st, SL + ('%key',)) != ID or not is_fld(get(st, SL + ('[]', 'second')), ('P', pv(f, 1))):
                            return ('slot', 'what is stored is not the given task under the given id')

            def step(ms, ev):
                if ev['k'] == 'cmut' and ev['path'] == SL and ev['name'] not in ('reserve', 'rehash'):
                    return [min(ms + 1, 2)]
                return None
            judge(ctx, run, 'SlotThreadPool::slot', f, 0, step, final, 'slot')
        # --- waiting
        for f in ctx.methods(c, 'wait_all_consumed'):
            n += 1
            run = running(f, 'tp')

            def step(ms, ev):
                if names(ev) == 'wait_all_consumed':
                    if len(ev['args']) != 1 or not is_fld(ev['args'][0], ('P', pv(f, 0))) and ev['args'][0] != ('p', pv(f, 0)):
                        return [('!', 'wait', 'waits with another timeout', ms)]
                    return [('r', 'wait_all_consumed', ev['i'])]
                return None

            def final(ms, kind, st, val):
                if ms is None or kind != 'return' or result(st, val) != ms:
                    return ('wait', 'does not report the reason with which the queue ended the wait')
            judge(ctx, run, 'SlotThreadPool::wait_all_consumed', f, None, step, final, 'wait')
        # --- the threads
        ws = [ctx.p.fn(t[1]) for t in starts if t[0] == 'bind']
        wf = [f for f in allm if f['u'] in {x['u'] for x in ws if x}] or [f for f in allm if f['name'] == 'thread_routine_']
        ctx.need(len(wf), 1, 'thread routines of the pool')
        for f in wf:
            n += 1
            run = running(f, 'tp')

            def step(ms, ev):
                # ms: None no id pending, ('id', v) consumed
                nm = names(ev)
                x = element(ev, SL)
                if x and ms is not None and x[0] != ms[1]:
                    return [('!', 'routine', 'looks for another task than the one of the consumed id', ms)]
                if ev['k'] in ('write', 'ewrite') and ev['path'][:2] == SL and len(ev['path']) > 2:
                    return [('!', 'routine', 'a registered task is changed by executing it', ms)]
                if nm == 'consume':
                    out = [('!', 'routine', 'a consumed id is dropped without executing its task', ('id', ('r', 'consume', ev['i'])))] if ms else []
                    if any(x[0] == MU for x in ev['locks']):
                        out.append(('!', 'routine', 'waits for an id while holding the mutex of the slots', ('id', ('r', 'consume', ev['i']))))
                    return out + [('id', ('r', 'consume', ev['i']))]
                if nm is not None:
                    return [('!', 'routine', 'a worker uses the queue in another way than consuming', ms)]
                if ev['k'] == 'cbcall':
                    v = ev['val']
                    if not is_fld(v, SL + ('[]', 'second')):
                        return [('!', 'routine', 'executes something that is not a registered task', None)]
                    if ms is None:
                        return [('!', 'routine', 'executes a task again, or without a consumed id', None)]
                    if any(x[0] == MU for x in ev['locks']):
                        return [('!', 'routine', 'executes the task while holding the mutex of the slots', None)]
                    return [None]
                if ev['k'] == 'cread' and ev['path'] == SL and ev['name'] in ('find', 'at') or ev['k'] == 'cmut' and ev['path'] == SL:
                    key = ev['args'][0] if ev['args'] else None
                    if ms is None or key != ms[1]:
                        return [('!', 'routine', 'looks for another task than the one of the consumed id', ms)]
                return None

            def final(ms, kind, st, val):
                if ms is not None and not (st.exc and st.exc[1] == '?') and kind == 'return':
                    return ('routine', 'a worker ends with an id whose task has not been executed')
            judge(ctx, run, 'SlotThreadPool::%s' % f['name'], f, None, step, final, 'routine')
        # --- enable
        for f in ctx.methods(c, 'enable'):
            for was in (C0, C1):
                for nt in (0, 1, 2):
                    n += 1
                    run = running(f, 'tpe%s%d' % (was, nt), True, was, nt, empty=was == C0)

                    def step(ms, ev):
                        sw, q, cnt, st = ms
                        nm = names(ev)
                        if nm == 'enable':
                            return [(sw, True, cnt, st)]
                        if nm is not None:
                            return [('!', 'enable', 'enabling uses the queue in another way than enabling it', ms)]
                        if ev['k'] == 'xchg' and ev['path'] == EN:
                            return [(True, q, cnt, st)]
                        if ev['k'] == 'spawn':
                            out = []
                            if not sw:
                                out.append(('!', 'enable', 'threads are started without having switched the state atomically: two calls may start them', (True, q, min(cnt + 1, 4), st)))
                            if not q:
                                out.append(('!', 'enable', 'a thread is started before the queue is enabled: it ends at once', (sw, True, min(cnt + 1, 4), st)))
                            return out + [(sw, q, min(cnt + 1, 4), st)]
                        if ev['k'] == 'cmut' and ev['path'] == TH and ev['name'] in ('emplace_back', 'push_back', 'emplace_front', 'push_front'):
                            if ev['args'] and ev['args'][0][0] in ('fnp', 'bind', 'clos'):
                                return [(sw, q, min(cnt + 1, 4), min(st + 1, 4))] + ([('!', 'enable', 'threads are started without having switched the state atomically: two calls may start them', ms)] if not sw else []) + ([('!', 'enable', 'a thread is started before the queue is enabled: it ends at once', ms)] if not q else [])
                            return [(sw, q, cnt, min(st + 1, 4))]
                        return None

                    def final(ms, kind, st, val):
                        if kind != 'return':
                            return ('enable', 'ends with an exception')
                        if get(st, EN) != C1:
                            return ('enable', 'the pool is not enabled afterwards')
                        want = nt if was == C0 else 0
                        if ms[2] != want or ms[3] != want:
                            return ('enable', 'does not start (and keep) the configured number of threads when it was disabled, none otherwise')
                        if was == C0 and not ms[1]:
                            return ('enable', 'the queue is not enabled again')
                    judge(ctx, run, 'SlotThreadPool::enable', f, (False, False, 0, 0), step, final, 'enable')
        if len(starts) != 1:
            ctx.oblige('enable', False, 'SlotThreadPool::enable', r['methods'][0].get('loc') or wf[0]['loc'], 'threads run %d different functions' % len(starts))
        # --- disable, destruction
        for f in ctx.methods(c, 'disable') + [ctx.dtor(c)]:
            isd = f['kind'] == 'dtor'
            where = 'SlotThreadPool::' + ('~SlotThreadPool' if isd else 'disable')
            for was in (C1, C0):
                n += 1
                run = running(f, 'tpd%s' % (was,), True, was, None, empty=was == C0) if not isd else \
                    ctx.run_dtor(c, key='tpd%s' % (was,), opaque=opaque, still=True, running=(TH,), confined=(T,),
                                 setup=lambda it, st, w=was: (st.store.__setitem__(EN, w), w == C0 and st.store.__setitem__(TH, ('emptyc',))))

                def step(ms, ev):
                    # switched, queue disabled, in an iteration (None / 0 not joined / 1), all joined
                    sw, q, it, done = ms
                    nm = names(ev)
                    if nm in ('disable', 'blocking_disable'):
                        return [(sw, True, it, done)]
                    if ev['k'] == 'xchg' and ev['path'] == EN:
                        return [(True, q, it, done)]
                    if ev['k'] in ('iter', 'iterend') and ev.get('path') == TH:
                        out = []
                        nj = any(isinstance(a, tuple) and a[:2] == ('r', 'joinable') and not pol for a, pol in ev['facts'])
                        if it == 0 and not nj:
                            out.append(('!', 'join', 'a thread is not joined', (sw, q, None, done)))
                        return out + [(sw, q, 0, done) if ev['k'] == 'iter' else (sw, q, None, True)]
                    if ev['k'] == 'join' and ev['path'][:2] == TH:
                        out = []
                        if not q:
                            out.append(('!', 'join', 'joins a thread before disabling the queue: it never ends', (sw, True, 1, done)))
                        if not sw and not isd:
                            out.append(('!', 'join', 'joins threads without having switched the state atomically: two calls may join the same', (True, q, 1, done)))
                        if any(x[0] == MU for x in ev['locks']):
                            out.append(('!', 'join', 'joins a thread while holding the mutex it needs', (sw, q, 1, done)))
                        return out + [(sw, q, 1, done)]
                    if ev['k'] == 'detach':
                        return [('!', 'join', 'detaches a thread that goes on using the pool', (sw, q, 1, done))]
                    if ev['k'] == 'cmut' and ev['path'] == TH and was == C1 and not done:
                        if ev['name'] in ('pop_back', 'pop_front', 'erase') and it == 1:
                            return [(sw, q, None, done)]
                        return [('!', 'join', 'threads are dropped before being joined', (sw, q, it, True))]
                    if ev['k'] == 'destroy_member' and ev['path'] in (TH, QU, SL, MU) and ev.get('empty') is True and ev['path'] == TH:
                        return [(sw, q, it, True)]
                    if ev['k'] == 'destroy_member' and ev['path'] in (TH, QU, SL, MU) and was == C1 and not done:
                        return [('!', 'join', '%s is destroyed before the threads have been joined' % ev['path'][-1], (sw, q, it, True))]
                    return None

                def final(ms, kind, st, val):
                    if kind != 'return':
                        return ('join', 'ends with an exception')
                    if isd:
                        return None
                    if get(st, EN) != C0:
                        return ('join', 'the pool is not disabled afterwards')
                    if was == C1:
                        if not ms[1]:
                            return ('join', 'the queue is not disabled')
                        left = decide(mk_cmp('==', ('size', get(st, TH)), C0), st.facts)
                        if not ms[3] and left is not True:
                            return ('join', 'not every thread has been joined')
                        if get(st, TH) != ('emptyc',) and left is not True:
                            return ('join', 'joined threads are kept: they would be joined again')
                judge(ctx, run, where, f, (False, False, None, False), step, final, 'join')
    # --- fresh ids
    for f in func(ctx, NS + 'new_unique_task_id'):
        n += 1
        run = ctx.run(f, None, key='tp')
        rmw = [ev for ev in run.events('write', 'xchg') if ev.get('atomic')]
        reads = {ev['i'] for ev in run.events('read') if ev.get('atomic')}
        tls = {v['id'] for f2 in [f] for v in static_vars(f2['body']) if v.get('tls')}
        bad = None
        for node, kind, st, val in run.g.exits:
            ok = kind == 'return' and len({ev['i'] for ev in rmw}) == 1 and rmw[0]['path'][0] in ('g', 's', 'static') and \
                (val == rmw[0].get('old') or val == rmw[0].get('val')) and rmw[0]['val'] == dom.add(rmw[0]['old'], 1) and \
                rmw[0]['i'] in reads and rmw[0]['path'][1] not in tls and not ctx.p.globals.get(rmw[0]['path'][1], {}).get('tls')
            if not ok:
                bad = bad or node
        ctx.oblige('fresh', bad is None and bool(run.g.exits), 'new_unique_task_id', f['loc'], 'an id is not the result of one atomic increment of a shared counter', path_to(ctx, run, bad) if bad else ())
    ctx.need(n, 15, 'operations of the thread pool')


def same_id(v, ID, SL):
    return v == ID or is_fld(v, SL + ('[]', 'first')) or is_fld(v, SL + ('%key',))


def element(ev, SL):
    """(key,) of the element of SL that an iterator gives access to"""
    if ev['k'] == 'itderef' and ev['val'][0] == 'it' and ev['val'][1] == SL:
        x = ev['val'][2]
        return (x[1][0] if isinstance(x, tuple) and x[0] == 'find' and x[1] else None,)
    return None


def static_vars(x):
    out = []
    if isinstance(x, dict):
        if x.get('k') == 'DeclStmt':
            out += x.get('vars') or []
        for v in x.values():
            out += static_vars(v)
    elif isinstance(x, list):
        for v in x:
            out += static_vars(v)
    return out


def ctx_changed(st, SL):
    v = st.store.get(SL)
    return v is not None and v != k(*SL)


def judge(ctx, run, where, fn, init, step, final, rule):
    bad = []
    for ru, msg, ev, tr in monitor(ctx, run, init, step, final=final):
        bad.append(1)
        ctx.oblige(ru, False, where, ev['l'] if ev is not None else fn['loc'], msg, tr)
    if not bad:
        ctx.oblige(rule, True, where, fn['loc'], '')


# ------------------------------------------------------------------ CommandHistoryHandler
def H01(ctx):
    """history"""
    n = 0
    for r in ctx.cls('history::CommandHistoryHandler'):
        c = r['u']
        fl = [f for _, f in ctx.p.all_fields(c)]

        def pick(what, test):
            x = [f['name'] for f in fl if test(f['t'])]
            if len(x) != 1:
                raise AnalysisBroken('a command history has %d members that look like %s' % (len(x), what))
            return T + (x[0],)
        HI = pick('its commands', lambda t: t.startswith(('std::vector<', 'std::deque<')))
        CU = pick('its cursor', lambda t: unconst(t) in ('unsigned long', 'unsigned int', 'int', 'long'))
        W = 'CommandHistoryHandler::'
        SZ = ('size', k(*HI))

        def go(f, key, cursor=None, empty=False):
            def setup(it, st):
                if empty:
                    st.store[HI] = ('emptyc',)
                if cursor is not None:
                    st.store[CU] = cursor
            return ctx.run(f, c, key=key, setup=setup, confined=(T, RET) + tuple(('P', x['n']) for x in f['params']))

        def access(run):
            for ev in run.events('cread', 'cmut', 'itderef', 'elem'):
                if ev['k'] == 'itderef' and ev['val'][0] == 'it' and ev['val'][1] == HI:
                    return ev
                if ev.get('path') == HI and ev['name'] in ('operator[]', 'at', 'front', 'back'):
                    return ev
            return None

        def returns(st, val):
            """'' / ('el', index) / None"""
            v = result(st, val)
            if v in (('s', ''), ('emptyc',)):
                return ''
            if is_fld(v, HI + ('[]',)):
                return ('el', st.store.get(HI + ('%key',)))
            return None

        def cases(st, conds):
            return assume_all(st.facts, conds)
        # --- nothing in it: the positions that can be reached
        start = set()
        for f in ctx.ctors(c):
            if len(f['params']) == 0:
                run = ctx.run(f, c, key='hist', confined=(T,))
                for node, kind, st, val in run.g.exits:
                    if kind == 'return':
                        start.add(get(st, CU))
                        if get(st, HI) != ('emptyc',) and not is_fld(get(st, HI), HI):
                            ctx.oblige('empty', False, W + f['name'], f['loc'], 'a new history is not empty')
        ctx.need(len(start), 1, 'initial positions of a history')
        moves = ctx.methods(c, 'get_previous_command') + ctx.methods(c, 'get_next_command')
        todo, seen = list(start), set(start)
        while todo:
            cu = todo.pop()
            if cu[0] != 'c':
                ctx.oblige('empty', False, W + 'CommandHistoryHandler', r['loc'], 'the initial position of a history is not a constant')
                continue
            for f in moves:
                n += 1
                run = go(f, 'e%s' % (cu[1],), cu, True)
                a = access(run)
                bad = a and 'reads a command of an empty history'
                for node, kind, st, val in run.g.exits:
                    if kind != 'return' or returns(st, val) != '':
                        bad = bad or 'does not return an empty command when the history is empty'
                    x = get(st, CU)
                    if x not in seen:
                        if len(seen) > 6:
                            bad = bad or 'the position of an empty history never settles'
                        else:
                            seen.add(x)
                            todo.append(x)
                ctx.oblige('empty', not bad, W + f['name'], a['l'] if a else f['loc'], bad or '')
        # --- some commands, position between 0 and their number
        P = k(*CU)
        inv = [(mk_cmp('==', C0, SZ), False), (mk_cmp('<', P, C0), False), (mk_cmp('<', SZ, P), False)]
        for f in moves:
            prev = f['name'] == 'get_previous_command'
            run = go(f, 'm')
            n += 1
            bad = None
            LAST = dom.add(SZ, -1)
            rows = [([(mk_cmp('==', C0, P), True)], '', P), ([(mk_cmp('<', C0, P), True)], 'el', dom.add(P, -1))] if prev else [
                ([(mk_cmp('<', P, LAST), True)], 'el', dom.add(P, 1)),
                ([(mk_cmp('==', P, LAST), True)], '', SZ),
                ([(mk_cmp('==', P, SZ), True)], '', SZ)]
            for node, kind, st, val in run.g.exits:
                for conds, want, pos in rows:
                    fs = assume_all(st.facts, inv + conds)
                    if fs is None:
                        continue
                    if kind != 'return':
                        bad = bad or (node, 'ends with an exception')
                        continue
                    rv = returns(st, val)
                    if decide(mk_cmp('==', get(st, CU), pos), fs) is not True:
                        bad = bad or (node, 'does not move one position %s' % ('back, down to the oldest command' if prev else 'forward, up to just after the newest command'))
                    elif want == '' and rv != '':
                        bad = bad or (node, 'does not return an empty command at the end')
                    elif want and (rv in ('', None) or rv[1] is None or decide(mk_cmp('==', rv[1], pos), fs) is not True):
                        bad = bad or (node, 'does not return the command at the new position')
                    elif get(st, HI) != k(*HI) and st.store.get(HI) is not None:
                        bad = bad or (node, 'changes the history')
                for ev in run.events('cread', 'cmut'):
                    if ev['path'] == HI and ev['name'] in ('operator[]',) and ev['args']:
                        fs = assume_all(ev['facts'], inv)
                        if fs is not None and decide(mk_cmp('<', ev['args'][0], SZ), fs) is not True and \
                                assume_all(fs, [(mk_cmp('<', ev['args'][0], SZ), False)]) is not None:
                            bad = bad or (None, 'reads beyond the newest command')
            ctx.oblige('move', bad is None, W + f['name'], f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad and bad[0] is not None else ())
        for f in ctx.methods(c, 'add_command'):
            A = ('P', pv(f, 0))
            for empty in (False, True):
                n += 1
                run = go(f, 'a%d' % empty, None, empty)
                none = mk_cmp('==', C0, ('size', k(*A)))

                def step(ms, ev):
                    if ev['k'] == 'cmut' and ev['path'] == HI and ev['name'] != 'reserve':
                        end = ev['name'] in ('push_back', 'emplace_back') or ev['name'] in ('insert', 'emplace') and ev['args'] and \
                            ev['args'][0][0] == 'it' and ev['args'][0][2] == 'end'
                        if not end or not ev['args'] or not is_fld(ev['args'][-1], A):
                            return [('!', 'add', 'something else is done than appending the given command', min(ms + 1, 2))]
                        return [min(ms + 1, 2)]
                    return None

                def final(ms, kind, st, val):
                    if kind != 'return':
                        return ('add', 'ends with an exception')
                    if assume_all(st.facts, [(none, True)]) is not None:
                        if ms or st.store.get(CU) not in (None, k(*CU)):
                            return ('add', 'an empty command changes the history')
                    elif ms != 1:
                        return ('add', 'the command is not added exactly once')
                    else:
                        x = get(st, CU)
                        if not (x == ('size', get(st, HI)) or x == (C1 if empty else dom.add(SZ, 1))):
                            return ('add', 'the position is not set to just after the added command')
                judge(ctx, run, W + 'add_command', f, 0, step, final, 'add')
    ctx.need(n, 6, 'operations of the command history')
