"""Event handlers."""
import dom
from dom import C0, C1, NULL, add, assume, decide, mk_cmp, neg, truth
from facts import AnalysisBroken
from interp import fmt_path, unconst
from lib import NS, assume_all, monitor, path_to, short_val
from p_db import judge
from p_misc import RET, T, func, get, is_arg, k, pv, result
from p_types import is_fld
from p_wait import collect_sleeps, count_balance, holds_excl, lost_wakeups, report, spin

EV = 'event::'
W = 'EventHandler::'


class H:
    pass


def own(ctx, c):
    return [f for f in (ctx.p.fn(m['u']) for m in ctx.p.records[c]['methods'] if m['kind'] in ('method', 'ctor', 'dtor'))
            if f is not None and f.get('body') is not None]


def named(ctx, c, name):
    return [f for f in own(ctx, c) if f['name'] == name]


def handlers(ctx):
    """the instances of the base class, with the roles of their members"""
    out = []
    for r in ctx.cls(EV + 'EventHandler'):
        c = r['u']
        h = H()
        h.c = c
        h.r = r
        fl = [f for f in r['fields'] if not f.get('static')]
        one = {}
        for what, test in (('callback', lambda t: t.startswith('std::function<')), ('flag', lambda t: t in ('std::atomic<bool>', 'bool', 'std::atomic_bool'))):
            x = [f['name'] for f in fl if test(unconst(f['t']))]
            if len(x) != 1:
                raise AnalysisBroken('an event handler has %d members that look like its %s' % (len(x), what))
            one[what] = T + (x[0],)
        h.CB, h.FLAG = one['callback'], one['flag']
        h.mutexes = [T + (f['name'],) for f in fl if 'mutex' in f['t']]
        ec = named(ctx, c, 'event_count')
        h.NUM = None
        for f in ec:
            run = ctx.run(f, c, key='ev', still=True, confined=(T,))
            for node, kind, st, val in run.g.exits:
                v = result(st, val)
                if v[0] == 'fld' and v[1][:1] == T:
                    h.NUM = v[1]
        h.num = h.NUM
        out.append(h)
    num = {h.NUM for h in out if h.NUM}
    if len(num) != 1:
        raise AnalysisBroken('the counter of events is not recognised')
    for h in out:
        h.NUM = next(iter(num))
        h.all = out
    ctx.need(len(out), 2, 'instances of EventHandler')
    return out


def still(ctx, f, c, key='ev', setup=None, **kw):
    """functional view: nobody else changes the object"""
    return ctx.run(f, c if f.get('kind') != 'ctor' else None, key=key, setup=setup, still=True,
                   confined=(T, RET) + tuple(('P', x['n']) for x in f['params']), **kw)


def settle(path, v):
    return lambda it, st: st.store.__setitem__(path, v)


def calls_of(ev, name):
    """a virtual function of the handler is called (opaque, or entered when there is one implementation only)"""
    if ev['k'] == 'call':
        return ev['sq'].split('::')[-1] == name
    return ev['k'] == 'enter' and ev['name'].split('::')[-1] == name


def same_args(f, ev):
    """the call receives the parameters of f, each once and in order"""
    args = ev['args']
    if len(args) != len(f['params']):
        return False
    for a, sub, p in zip(args, ev.get('argsub') or (None,) * len(args), f['params']):
        P = ('P', p['n'])
        if a == ('p', p['n']) or is_fld(a, P) or a in (('obj', P), ('ref', P)):
            continue
        if not sub:
            return False
        for q, v in sub.items():
            if '%' in str(q[-1:]):
                continue
            if not is_fld(v, P + q) and not is_fld(v, ('?', ('p', p['n'])) + q) and not (q == () and v == ('p', p['n'])):
                return False
    return True


def callback_mutex(ctx, h):
    """the mutexes held at every call of the callback and at every change of the callback or of the flag"""
    ms = set(h.mutexes)
    sites = []
    for f in own(ctx, h.c):
        if f['kind'] != 'method':
            continue
        run = ctx.run(f, h.c)
        for ev in run.events('cbcall', 'write', 'xchg'):
            if ev['k'] == 'cbcall':
                if not is_fld(ev['val'], h.CB):
                    continue
            elif ev['path'] not in (h.CB, h.FLAG):
                continue
            held = {m for m in ms if holds_excl(ev, m)}
            sites.append((f, ev, held))
    common = set(h.mutexes)
    for f, ev, held in sites:
        common &= held
    if not any(ev['k'] == 'cbcall' for f, ev, held in sites):
        # nothing is delivered through this instance: what the others use
        for h2 in h.all:
            if h2 is not h:
                c2, s2 = callback_mutex(ctx, h2) if any(named(ctx, h2.c, 'event_occurred_')) else (None, None)
                if c2 is not None:
                    common &= c2
    return common, sites


# ------------------------------------------------------------------ E01
def E01(ctx):
    """one callback per event, exclusive"""
    n = 0
    for h in handlers(ctx):
        c = h.c
        common, sites = callback_mutex(ctx, h)
        if not any(ev['k'] == 'cbcall' for f, ev, held in sites):
            continue
        n += 1
        ev0 = next((ev for f, ev, held in sites if not held), sites[0][1])
        f0 = next((f for f, ev, held in sites if not held), sites[0][0])
        ctx.oblige('exclusive', bool(common), W + f0['name'], ev0['l'],
                   'no mutex is held by both the calls of the callback and every change of the callback')
        for f, ev, held in sites:
            if ev['k'] != 'cbcall':
                continue
            v = ev['store'].get(h.FLAG)
            ok = v is not None and decide(truth(v), ev['facts']) is True
            ctx.oblige('only-when-set', ok, W + f['name'], ev['l'], 'the callback is called without knowing, with the mutex held, that a callback is set')
        for f in own(ctx, c):
            if f['kind'] != 'method' or f['name'] not in ('event_occurred_', 'simulate_event_occurred'):
                continue
            for was in (C1, C0):
                n += 1
                run = still(ctx, f, c, 'ev%s' % (was,), settle(h.FLAG, was))

                def step(ms, ev):
                    if ev['k'] == 'cbcall':
                        if not is_fld(ev['val'], h.CB):
                            return [('!', 'once', 'calls something else than the callback', ms)]
                        nx = min(ms + 1, 2)
                        if not same_args(f, ev):
                            return [('!', 'once', 'the callback does not receive the arguments of the event', nx)]
                        return [nx]
                    return None

                def final(ms, kind, st, val):
                    if kind != 'return':
                        return ('once', 'ends with an exception')
                    want = 1 if was == C1 else 0
                    if ms != want:
                        return ('once', 'the callback is not called exactly once per event while it is set' if want else 'calls the callback although none is set')
                    if get(st, h.NUM) != add(k(*h.NUM), want):
                        return ('counted', 'an event whose callback has been called is not counted exactly once' if want else 'an event without callback is counted')
                    if get(st, h.FLAG) != was:
                        return ('once', 'changes whether a callback is set')
                judge(ctx, run, W + f['name'], f, 0, step, final, 'once')
            # counting is atomic
            run = ctx.run(f, c)
            for ev in run.events('write', 'xchg'):
                if ev['path'] != h.NUM:
                    continue
                base = ev.get('old')
                ctx.oblige('counted', bool(base) and ev['val'] == add(base, 1), W + f['name'], ev['l'], 'the counter is not incremented from its current value')
        # the other operations on the counter
        for f in own(ctx, c):
            if f['name'] == 'reset_event_count':
                n += 1
                run = still(ctx, f, c)
                bad = [node for node, kind, st, val in run.g.exits if kind != 'return' or get(st, h.NUM) != C0]
                ctx.oblige('reset', not bad, W + f['name'], f['loc'], 'the counter is not 0 afterwards', path_to(ctx, run, bad[0]) if bad else ())
            if f['name'] == 'decrement_event_count':
                n += 1
                run = still(ctx, f, c)
                bad = None
                old = k(*h.NUM)
                for node, kind, st, val in run.g.exits:
                    for conds, want in (([(mk_cmp('==', C0, old), True)], C0), ([(mk_cmp('<', C0, old), True)], add(old, -1))):
                        fs = assume_all(st.facts, conds)
                        if fs is not None and (kind != 'return' or decide(mk_cmp('==', get(st, h.NUM), want), fs) is not True):
                            bad = bad or node
                ctx.oblige('decrement', bad is None, W + f['name'], f['loc'], 'the counter is not decremented by one, down to 0', path_to(ctx, run, bad) if bad is not None else ())
                # test and decrement are one step
                run = ctx.run(f, c)
                for ev in run.events('write', 'xchg'):
                    if ev['path'] == h.NUM:
                        v = ev.get('old')
                        ok = v is not None and decide(mk_cmp('==', C0, v), ev['facts']) is False and ev['val'] == add(v, -1)
                        ctx.oblige('decrement', ok, W + f['name'], ev['l'], 'the counter may have become 0, or have been changed, since it was tested')
            if f['name'] == 'event_count':
                n += 1
                run = still(ctx, f, c)
                bad = [node for node, kind, st, val in run.g.exits if kind != 'return' or result(st, val) != k(*h.NUM)]
                ctx.oblige('counted', not bad, W + f['name'], f['loc'], 'does not return the counter', path_to(ctx, run, bad[0]) if bad else ())
    ctx.need(n, 10, 'operations of event handlers')


# ------------------------------------------------------------------ E02
def E02(ctx):
    """setting and unsetting"""
    n = 0
    for h in handlers(ctx):
        c = h.c
        common, sites = callback_mutex(ctx, h)
        for name in ('set_callback', 'unset_callback'):
            for f in named(ctx, c, name):
                isset = name == 'set_callback'
                for was in (C0, C1):
                    n += 1
                    run = still(ctx, f, c, 'ev%s' % (was,), settle(h.FLAG, was), opaque=lambda fn: fn['name'] in (
                        'callback_set_nts_', 'callback_change_nts_', 'callback_unset_nts_', 'awake_all_waiting_threads_nts_') and False)
                    hooks = ('callback_set_nts_', 'callback_change_nts_', 'callback_unset_nts_')
                    due = (hooks[1] if was == C1 else hooks[0]) if isset else (hooks[2] if was == C1 else None)

                    def step(ms, ev):
                        flag, cb, called = ms
                        if ev['k'] in ('write', 'xchg') and ev['path'] == h.FLAG:
                            return [(ev['val'], cb, called)]
                        if ev['k'] == 'write' and ev['path'] == h.CB:
                            return [(flag, True, called)]
                        for x in hooks:
                            if calls_of(ev, x):
                                nx = (flag, cb, called + 1 if called < 2 else 2)
                                out = []
                                if x != due:
                                    out.append(('!', 'transition', '%s is called when the callback was %s' % (x, 'set' if was == C1 else 'not set'), nx))
                                if isset and (flag != C1 or not cb):
                                    out.append(('!', 'transition', 'the source of events is told before the callback is in place: events are lost', nx))
                                if not isset and flag != C0:
                                    out.append(('!', 'transition', 'the source of events is stopped while the callback is still set', nx))
                                if any(holds_excl(ev, m) for m in common):
                                    out.append(('!', 'transition', 'the source of events is %s with the mutex of the callback held: an event being delivered blocks it for ever' % (
                                        'started' if isset else 'stopped'), nx))
                                return out + [nx]
                        return None

                    def final(ms, kind, st, val):
                        if kind != 'return':
                            return ('transition', 'ends with an exception')
                        if ms[2] != (1 if due else 0):
                            return ('transition', '%s is not called exactly once' % due if due else 'the source of events is told although nothing changed')
                        if get(st, h.FLAG) != (C1 if isset else C0):
                            return ('transition', 'a callback is not %s afterwards' % ('set' if isset else 'unset'))
                        v = get(st, h.CB)
                        if not isset and was == C1 and is_fld(v, h.CB):
                            return ('transition', 'the callback, and what it holds, is kept after it has been unset')
                        if isset:
                            if not is_fld(v, ('P', pv(f, 0))) and v != ('p', pv(f, 0)):
                                return ('transition', 'the given callback is not the one in place afterwards')
                    judge(ctx, run, W + name, f, (was, False, 0), step, final, 'transition')
        # no mixing of two transitions: the decision, the change and the hook are under one mutex
        for name in ('set_callback', 'unset_callback'):
            for f in named(ctx, c, name):
                n += 1
                run = ctx.run(f, c)
                held = set(h.mutexes)
                sec = []
                first = None
                for ev in run.events('write', 'xchg', 'call', 'enter'):
                    hook = any(calls_of(ev, x) for x in ('callback_set_nts_', 'callback_change_nts_', 'callback_unset_nts_'))
                    if hook or ev.get('path') in (h.CB, h.FLAG) and ev['k'] in ('write', 'xchg'):
                        sec.append(ev)
                        now = {m for m in h.mutexes if holds_excl(ev, m)}
                        if held and not held & now:
                            first = ev
                        held &= now
                ctx.oblige('serial', bool(held) and bool(sec), W + name, (first or (sec[0] if sec else {'l': f['loc']}))['l'],
                           'two threads that set and unset the callback can interleave: the source of events may end in the wrong state')
                # and it is not left in between

                def step2(ms, ev, held=held):
                    if ev['k'] == 'release' and ev['m'] in held and ms == 1:
                        return [2]
                    hook = any(calls_of(ev, x) for x in ('callback_set_nts_', 'callback_change_nts_', 'callback_unset_nts_'))
                    if hook or ev.get('path') in (h.CB, h.FLAG) and ev['k'] in ('write', 'xchg'):
                        if ms == 2:
                            return [('!', 'serial', 'the mutex is released between changing the callback and telling the source of events', 1)]
                        return [1]
                    return None
                if held:
                    m1 = sorted(held)[0]
                    report(ctx, run, 'serial', monitor(ctx, run, 0, lambda ms, ev, m1=m1: step2(ms, ev, {m1})))

                    def step3(ms, ev, m1=m1):
                        # whether a callback is set is read while m1 is held
                        if ev['k'] == 'acquired' and ev['m'] == m1:
                            return [0]
                        if ev['k'] == 'release' and ev['m'] == m1:
                            return [None]
                        if ev['k'] in ('read', 'xchg') and ev.get('path') == h.FLAG and ms == 0:
                            return [1]
                        for x in ('callback_set_nts_', 'callback_change_nts_', 'callback_unset_nts_'):
                            if calls_of(ev, x) and ms == 0:
                                return [('!', 'serial', '%s is chosen by what was seen before the mutex was taken' % x, 1)]
                        return None
                    report(ctx, run, 'serial', monitor(ctx, run, None, step3))
        # the flag and the callback are changed with the mutex of the callback held
        for f, ev, held in sites:
            if ev['k'] != 'cbcall':
                n += 1
                ctx.oblige('blocks-until-delivered', bool(held & common) if common else False, W + f['name'], ev['l'],
                           'the callback is changed while it may be being called')
        # nothing else changes them
        for f in own(ctx, c):
            if f['kind'] == 'ctor':
                run = still(ctx, f, c)
                bad = [node for node, kind, st, val in run.g.exits if kind == 'return' and get(st, h.FLAG) != C0]
                ctx.oblige('transition', not bad, W + 'EventHandler', f['loc'], 'a new handler seems to have a callback', ())
            elif f['kind'] == 'method' and f['name'] not in ('set_callback', 'unset_callback') and not f.get('implicit'):
                run = ctx.run(f, c)
                for ev in run.events('write', 'xchg'):
                    if ev.get('path') in (h.CB, h.FLAG) and 'set_callback' not in str(ev.get('ctx')):
                        ctx.oblige('transition', False, W + f['name'], ev['l'], 'changes the callback without telling the source of events')
    ctx.need(n, 10, 'transitions of event handlers')


# ------------------------------------------------------------------ E03
def E03(ctx):
    """waiting for events"""
    n = 0
    for h in handlers(ctx):
        c = h.c
        if not named(ctx, c, 'wait_for_event'):
            continue
        runs = [ctx.run(f, c) for f in own(ctx, c) if f['kind'] == 'method' and not f.get('implicit')]
        sl0 = collect_sleeps(ctx, runs)
        counts = {ev['path'] for s in sl0 for ev in s.run.events('write', 'xchg')} - {h.NUM, h.FLAG, h.CB}
        sleeps = lost_wakeups(ctx, c, runs, idle=lambda ev: any(zero(ev, p, ev['hv']) for p in counts))
        if not sleeps:
            raise AnalysisBroken('no operation of an event handler waits')
        muts = {s.m for s in sleeps}
        cvs = {s.cv for s in sleeps}
        for f in named(ctx, c, 'wait_for_event'):
            n += 1
            N = None
            run = ctx.run(f, c)
            where = W + f['name']
            # it sleeps only while the events are missing and a callback is set
            for ev in run.events('cvwait', 'resleep'):
                num, fl = ev['store'].get(h.NUM) or ('fld', h.NUM, ev['hv']), ev['store'].get(h.FLAG) or ('fld', h.FLAG, ev['hv'])
                miss = any(decide(mk_cmp('<', num, a), ev['facts']) is True for a in params(f))
                ctx.oblige('sleeps-only', miss, where, ev['l'], 'waits although the events have occurred')
                ctx.oblige('sleeps-only', decide(truth(fl), ev['facts']) is True, where, ev['l'], 'waits although no callback is set: nothing will ever occur')
            # it does not stop waiting for no reason

            def step1(ms, ev):
                if ev['k'] == 'awake':
                    return [1]
                if ev['k'] in ('cvwait', 'resleep'):
                    return [0]
                if ms and ev['k'] == 'release' and ev['m'] in muts:
                    num, fl = ev['store'].get(h.NUM) or ('fld', h.NUM, ev['hv']), ev['store'].get(h.FLAG) or ('fld', h.FLAG, ev['hv'])
                    if decide(truth(fl), ev['facts']) is not False and not any(decide(mk_cmp('<', num, a), ev['facts']) is False for a in params(f)):
                        return [('!', 'no-early-return', 'stops waiting although the events are missing and the callback is set (spurious wake-up)', 0)]
                    return [0]
                return None
            report(ctx, run, 'no-early-return', monitor(ctx, run, 0, step1))
            # what it reports
            bad = None
            seen = set()
            for st_was in (C0, C1):
                r2 = still(ctx, f, c, 'evw%s' % (st_was,), settle(h.FLAG, st_was))
                for node, kind, st, val in r2.g.exits:
                    if kind != 'return':
                        bad = bad or (r2, node, 'ends with an exception')
                        continue
                    v = result(st, val)
                    num = get(st, h.NUM)
                    given = [a for a in params(f) if mentions(v, a)] or params(f)[:1]
                    for pol in (True, False):
                        for a in given:
                            fs = assume_all(st.facts, [(mk_cmp('<', num, a), not pol)])
                            if fs is None:
                                continue
                            seen.add(pol)
                            if decide(truth(v), fs) is not pol:
                                bad = bad or (r2, node, 'does not report whether the events have occurred')
            ctx.oblige('reports', bad is None and seen == {True, False}, where, f['loc'], bad[2] if bad else 'never reports one of the outcomes',
                       path_to(ctx, bad[0], bad[1]) if bad else ())
            # nobody is left waiting when the callback is unset
            wr = {ev['path'] for ev in run.events('write', 'xchg')} - {h.NUM, h.FLAG, h.CB}
            for p in wr:
                count_balance(ctx, run, p, cvs, muts)
            for g in named(ctx, c, 'unset_callback'):
                n += 1
                r3 = ctx.run(g, c, key='evq', setup=None)

                def step(ms, ev):
                    # None: was not set; (0, version): flag cleared, values as of the last time the mutex was taken; 1: count seen zero
                    if ev['k'] in ('write', 'xchg') and ev['path'] == h.FLAG:
                        return [(0, None) if ev['val'] == C0 else None]
                    if isinstance(ms, tuple):
                        if ev['k'] == 'acquired' and ev['m'] in muts:
                            return [(0, ev['hv'])]
                        if ms[1] and any(zero(ev, p, ms[1]) for p in wr):
                            return [1]
                        if ev['k'] == 'exit':
                            return [('!', 'all-awake', 'returns while threads may still be waiting for events: the handler can be destroyed under them', 1)]
                    return None
                report(ctx, r3, 'all-awake', monitor(ctx, r3, None, step))
                spin(ctx, r3, wr, muts)
    ctx.need(n, 2, 'operations that wait for events')


def params(f):
    return [('p', f['params'][0]['n']), k('P', f['params'][0]['n'])]


def mentions(t, a):
    return t == a or isinstance(t, tuple) and any(mentions(x, a) for x in t)


def zero(ev, p, ver):
    for a, pol in ev['facts']:
        if a[0] == '==' and pol and C0 in a[1:]:
            o = a[2] if a[1] == C0 else a[1]
            if o[0] == 'fld' and o[1] == p and o[2] == ver:
                return True
        # not positive: the count of waiting threads is balanced, so never negative
        if a[0] == '<' and a[1] == C0 and not pol and a[2][0] == 'fld' and a[2][1] == p and a[2][2] == ver:
            return True
    return False


# ------------------------------------------------------------------ E04
def derived(ctx, base_q=EV + 'EventHandler'):
    """classes (with a definition) that derive from EventHandler: (class, [class and its bases, most derived first], instance of EventHandler)"""
    hs = {h.c: h for h in handlers(ctx)}
    out = []
    for u, r in sorted(ctx.p.records.items()):
        if u in hs or not r.get('q', '').startswith(NS):
            continue
        chain, todo = [], [u]
        while todo:
            x = todo.pop(0)
            if x in chain or x not in ctx.p.records:
                continue
            chain.append(x)
            todo += [b['u'] for b in ctx.p.records[x].get('bases') or ()]
        h = next((hs[x] for x in chain if x in hs), None)
        if h is not None and not r.get('abstract'):
            out.append((u, [x for x in chain if x not in hs], h))
    return out


REG = ('register_callback', 'unregister_callback')


def opaque_reg(fn):
    return fn['name'] in REG or fn['name'] in ('RegisterConsumer',)


def keep_state(st):
    """what is carried from one operation to the next"""
    return {q: v for q, v in st.items() if q[0] in ('this', 'h')}


def put(state, extra=None):
    def f(it, st):
        st.store.update(state)
        if extra:
            st.store.update(extra)
    return f


def fields_of(ctx, chain):
    return {f['name']: f['t'] for c in chain for f in ctx.p.records[c]['fields'] if not f.get('static')}


def arming(ev, fl, armed):
    """+1: the source of events starts (or could deliver from here on), -1: it has stopped for good, None"""
    k_ = ev['k']
    if k_ == 'spawn':
        return 1
    if k_ == 'join':
        return -1
    if k_ == 'call':
        n = ev['sq'].split('::')[-1]
        if n in ('register_callback', 'RegisterConsumer'):
            return 1
        if n == 'unregister_callback':
            return -1
    p_ = ev.get('path')
    if p_ and p_[0] == 'this' and len(p_) > 1 and p_[1] in fl:
        t = fl[p_[1]]
        if len(p_) == 2 and t.startswith('std::unique_ptr<'):
            if k_ == 'write' and ev['val'][0] == 'ref':
                return 1
            if k_ == 'drop_ptr':
                return -1
        if 'OwnerPtr' in t and k_ == 'drop_ptr':
            return -1
    return None


def closures_in(x, out):
    if isinstance(x, tuple):
        if x[:1] in (('clos',), ('bind',)) and len(x) >= 2 and isinstance(x[1], str):
            out.append(x)
            return
        for y in x:
            closures_in(y, out)


def used_by_source(ctx, run, h, D, store):
    """fields of the object that the delivery of an event uses"""
    vals = []
    for ev in run.events('spawn', 'call', 'construct'):
        closures_in(ev.get('target'), vals)
        closures_in(ev.get('args'), vals)
        for x in ev.get('argsub') or ():
            closures_in(tuple(x.values()) if x else (), vals)
    for q, v in store.items():
        if q[:2] != h.CB:
            closures_in(v, vals)
    used, entries = set(), []
    for v in sorted(set(vals), key=str):
        if ('this',) not in [y for x in v[2:] for y in flat(x)]:
            continue
        r = ctx.run_closure(run, v, St0(store), key='used' + D, setup=lambda it, st: st.store.__setitem__(T + ('%cls',), ('cls', D)))
        if r is None:
            continue
        if not any(ev['k'] == 'enter' and ev['name'].split('::')[-1] == 'event_occurred_' for ev in r.events('enter')):
            continue
        entries.append(r)
        for ev in r.events():
            for q in (ev.get('path'), ev.get('m'), ev.get('cv'), ev.get('fthis')):
                if isinstance(q, tuple) and q[:1] == T and len(q) > 1:
                    used.add(q[1])
    return used, entries


class St0:
    def __init__(self, store):
        self.store = store


def flat(x):
    out = [x]
    if isinstance(x, tuple):
        for y in x:
            out += flat(y)
    return out


def E04(ctx):
    """life cycle of the sources"""
    n = 0
    for D, chain, h in derived(ctx):
        name = ctx.short(D)
        fl = fields_of(ctx, chain)
        armed_states = []
        hooked = any(named(ctx, c, 'callback_set_nts_') for c in chain)
        used = set()
        idle_states = []
        bodies = [f for f in own(ctx, D) if f['kind'] == 'ctor' and not f.get('implicit') and not (len(f['params']) == 1 and D.split('@')[-1] in f['params'][0]['t'])]
        for f in bodies:
            run = still(ctx, f, D, 'life', opaque=opaque_reg)
            for node, kind, st, val in run.g.exits:
                if kind != 'return':
                    continue
                n += 1
                flag = get(st, h.FLAG)
                (armed_states if flag == C1 or not hooked else idle_states).append((f, run, node, keep_state(st.store), st))
        for f, run, node, state, st in armed_states:
            u, ent = used_by_source(ctx, run, h, D, st.store)
            used |= u

        def count(run, rule, where, f, want, start):
            """the source is started / stopped exactly once"""
            def step(ms, ev):
                a = arming(ev, fl, ms)
                if a is None:
                    return None
                if a > 0 and ms >= 1:
                    return [('!', rule, 'starts the source of events although it has been started', ms)]
                if a < 0 and ms <= 0:
                    return [('!', rule, 'stops the source of events although it has been stopped', ms)]
                return [ms + a]

            def final(ms, kind, st, val):
                if kind == 'return' and ms != want:
                    return (rule, 'the source of events is not started' if want else 'the source of events is not stopped')
            judge(ctx, run, where, f, start, step, final, rule)
        if not hooked and not armed_states:
            continue
        if not hooked:
            # no hooks: the source runs from construction to destruction (or there is none)
            if not used and not any(arming(ev, fl, 0) == 1 for f, run, node, state, st in armed_states for ev in run.events()):
                continue
            for f, run, node, state, st in armed_states:
                count(run, 'started', '%s::%s' % (name, f['name']), f, 1, 0)
        else:
            for f, run, node, state, st in armed_states + idle_states:
                want = 1 if get(st, h.FLAG) == C1 else 0
                count(run, 'started', '%s::%s' % (name, f['name']), f, want, 0)
            # start, stop, start, ... from every constructed state
            hs = next((named(ctx, c, 'callback_set_nts_')[0] for c in chain if named(ctx, c, 'callback_set_nts_')), None)
            hu = next((named(ctx, c, 'callback_unset_nts_')[0] for c in chain if named(ctx, c, 'callback_unset_nts_')), None)
            if hu is None:
                ctx.oblige('stopped', False, name, ctx.p.records[D]['loc'], 'starts a source of events but has nothing that stops it')
                continue
            todo = [(s[3], 1, 0) for s in armed_states] + [(s[3], 0, 0) for s in idle_states]
            seen = set()
            while todo:
                state, on, d = todo.pop()
                sig = (on, tuple(sorted(((q, v) for q, v in state.items() if q[0] == 'this' and len(q) == 2 and v[0] in ('c', 'null', 'nothread')), key=str)))
                if sig in seen or d > 5:
                    continue
                seen.add(sig)
                f = hu if on else hs
                run = still(ctx, f, D, 'life%d%s' % (on, hash(sig)), put(state, {h.FLAG: C0 if on else C1}), opaque=opaque_reg, running=bool(on))
                n += 1
                count(run, 'stopped' if on else 'started', '%s::%s' % (name, f['name']), f, 0 if on else 1, 1 if on else 0)
                if on:
                    for ev in run.events('call'):
                        if ev['sq'].split('::')[-1] == 'unregister_callback':
                            ids = {v for q, v in state.items() if q[0] == 'this' and len(q) == 2 and v[0] not in ('c', 'null')}
                            ctx.oblige('stopped', bool(ev['args']) and ev['args'][0] in ids, '%s::%s' % (name, f['name']), ev['l'],
                                       'unregisters something else than what was registered')
                for node, kind, st, val in run.g.exits:
                    if kind == 'return':
                        todo.append((keep_state(st.store), 1 - on, d + 1))
                        if not on:
                            armed_states.append((f, run, node, keep_state(st.store), st))
                            u, ent = used_by_source(ctx, run, h, D, st.store)
                            used |= u
        ctx.oblige('delivers', bool(used), name, ctx.p.records[D]['loc'], 'the source of events does not raise events (event_occurred_)')
        # --- construction: nothing that the delivery of an event uses is initialised after the callback is set
        for f, run, node, state, st in armed_states:
            if f['kind'] != 'ctor':
                continue

            def step(ms, ev):
                if ev['k'] in ('write', 'xchg') and ev['path'] == h.FLAG and ev['val'] == C1:
                    return [1]
                if ms and ev['k'] == 'init_member' and ev['path'][:1] == T and len(ev['path']) == 2 and ev['path'][1] in used:
                    return [('!', 'ready', '%s is initialised after the callback has been set: an event can use it before' % ev['path'][1], ms)]
                return None
            report(ctx, run, 'ready', monitor(ctx, run, 0, step))
        # --- destruction: the source is stopped before anything that the delivery uses is destroyed
        done = set()
        for f, run, node, state, st in armed_states:
            sig = tuple(sorted(((q, v) for q, v in state.items() if q[0] == 'this' and len(q) == 2 and v[0] in ('c', 'null')), key=str))
            if sig in done:
                continue
            done.add(sig)
            n += 1
            flag = C1 if hooked else get(st, h.FLAG)
            dr = ctx.run_dtor(D, 'life%s' % hash(sig), put(state, {h.FLAG: flag}), still=True, confined=(T,), opaque=opaque_reg, running=True)

            def step(ms, ev):
                a = arming(ev, fl, ms)
                if a == -1:
                    return [0]
                if ms and ev['k'] == 'destroy_member' and ev['path'][:1] == T and len(ev['path']) == 2 and ev['path'][1] in used:
                    if not holder(fl[ev['path'][1]] if ev['path'][1] in fl else '', ev):
                        return [('!', 'stopped-first', '%s is destroyed while events can still be delivered' % ev['path'][1], ms)]
                if ms and ev['k'] == 'exit':
                    return [('!', 'stopped-first', 'the source of events is not stopped when the handler is destroyed', 0)]
                return None
            report(ctx, dr, 'stopped-first', monitor(ctx, dr, 1, step))
        # a more derived part must not be gone while events are still delivered through its overriders
    ctx.need(n, 8, 'operations of event handlers')


def holder(t, ev):
    """the destruction of this member is what stops the source"""
    return t.startswith('std::unique_ptr<') or 'OwnerPtr' in t
