"""The sources of events: periodic handler, signal manager."""
from dom import C0, C1, add, assume, consistent, decide, mk_cmp, neg, truth
from facts import AnalysisBroken
from interp import unconst
from lib import NS, monitor, path_to
from p_db import judge
from p_event import EV, named, own, still
from p_misc import RET, T, get, is_arg, is_now, k, pv, quantity, result
from p_types import is_fld
from p_wait import collect_sleeps, exc_named, holds_excl, lost_wakeups, reasons, report


def one(c, what, names):
    if len(names) != 1:
        raise AnalysisBroken('%s has %d members that look like %s' % (c, len(names), what))
    return T + (names[0],)


def strip(v):
    """a value without the version of the fields in it"""
    if isinstance(v, tuple):
        if v[:1] == ('fld',) and len(v) == 3:
            return ('fld', v[1], 'k')
        return tuple(strip(x) for x in v)
    return v


def is_bool(t):
    return unconst(t) in ('std::atomic<bool>', 'bool', 'std::atomic_bool')


def cur(ev, p):
    return ev['store'].get(p) or ('fld', p, ev['hv'])


def stop_order(ctx, run, where, f, flag, off, cvs, muts, rule):
    """the flag that ends the thread changes under the mutex, the thread is woken up after that, and then it is joined, without a mutex it needs"""
    def step(ms, ev):
        if ev['k'] in ('write', 'xchg') and ev['path'] == flag:
            if ev['val'] != off:
                return [('!', rule, 'sets the flag to something else than what ends the thread', 'cleared')]
            if not any(holds_excl(ev, m) for m in muts):
                return [('!', rule, 'changes the flag that ends the thread without its mutex: the thread can miss it', 'cleared')]
            return ['cleared']
        if ev['k'] == 'notify' and ev['cv'] in cvs:
            return ['woken'] if ms == 'cleared' else None
        if ev['k'] == 'join':
            if any(holds_excl(ev, m) for m in muts):
                return [('!', rule, 'joins the thread while holding a mutex that it needs', 'joined')]
            if ms != 'woken':
                return [('!', rule, 'joins the thread without having told it to end and woken it up', 'joined')]
            return ['joined']
        return None

    def final(ms, kind, st, val):
        if kind == 'return' and ms != 'joined':
            return (rule, 'the thread is not joined')
    judge(ctx, run, where, f, 'on', step, final, rule)


def is_period(t, PE):
    q = quantity(strip(t), 1.0)
    if q is None:
        return False
    q = {('now' if isinstance(x, tuple) and is_now(x) else x): y for x, y in q.items()}
    return q in ({k(*PE): 1.0}, {k(*PE): 1.0, 'now': 1.0})


# ------------------------------------------------------------------ E05
def E05(ctx):
    """periodic events"""
    n = 0
    for r in ctx.cls(EV + 'PeriodicEventHandler'):
        c = r['u']
        fl = [f for f in r['fields'] if not f.get('static')]
        PE = one('PeriodicEventHandler', 'its period', [f['name'] for f in fl if unconst(f['t']) in ('unsigned int', 'eprosima::utils::Duration_ms', 'uint32_t')])
        FL = one('PeriodicEventHandler', 'its state', [f['name'] for f in fl if is_bool(f['t'])])
        opq = lambda fn: fn['name'] == 'event_occurred_'
        ms_ = [f for f in own(ctx, c) if f['kind'] == 'method' and not f.get('implicit')]
        runs = [ctx.run(f, c, key='per', opaque=opq) for f in ms_]
        for f, run in zip(ms_, runs):
            if f.get('access') != 0 and any(True for ev in run.events('cvwait')):
                run.escape = 'std::thread'       # one thread at a time (E04)
        sleeps = lost_wakeups(ctx, c, runs)
        if not sleeps:
            raise AnalysisBroken('PeriodicEventHandler does not wait any more')
        muts, cvs = {s.m for s in sleeps}, {s.cv for s in sleeps}
        # --- construction
        for f in own(ctx, c):
            if f['kind'] != 'ctor' or f.get('implicit'):
                continue
            ps = [i for i, p in enumerate(f['params']) if unconst(p['t']).split('::')[-1] in ('unsigned int', 'Duration_ms', 'uint32_t')]
            if len(ps) != 1:
                continue
            n += 1
            where = 'PeriodicEventHandler::PeriodicEventHandler'
            a = ('p', pv(f, ps[0]))
            run = still(ctx, f, c, 'per', opaque=opq)
            bad, seen = None, set()
            for node, kind, st, val in run.g.exits:
                z = decide(mk_cmp('==', a, C0), st.facts)
                if kind == 'throw':
                    seen.add('throw')
                    if z is not True or not exc_named({'exc': st.exc}, ('InitializationException',)):
                        bad = bad or (node, 'a handler with a valid period is not constructed' if z is not True else 'throws something else than InitializationException')
                elif kind == 'return':
                    seen.add('return')
                    if z is not False:
                        bad = bad or (node, 'a handler with period 0 is constructed')
                    elif get(st, PE) != a and not is_arg(get(st, PE), pv(f, ps[0])):
                        bad = bad or (node, 'the period is not the one given')
            ctx.oblige('created', bad is None and seen == {'throw', 'return'}, where, f['loc'], bad[1] if bad else 'accepts nothing or everything', path_to(ctx, run, bad[0]) if bad else ())
            # nothing runs when it throws
            for node, kind, st, val in run.g.exits:
                if kind == 'throw' and any(ev['k'] == 'spawn' for ev in run.events('spawn')):
                    def step(m, ev):
                        if ev['k'] == 'spawn':
                            return [1]
                        if ev['k'] == 'throw' and m:
                            return [('!', 'created', 'throws after a thread has been started', 0)]
                        return None
                    report(ctx, run, 'created', monitor(ctx, run, 0, step))
                    break
        # --- the period never changes
        for f in ms_:
            for ev in ctx.run(f, c, key='per', opaque=opq).events('write', 'xchg'):
                if ev['path'] == PE:
                    ctx.oblige('period', False, 'PeriodicEventHandler::' + f['name'], ev['l'], 'changes the period')
        # --- the thread
        targets = set()
        for run in runs:
            for ev in run.events('spawn'):
                targets.add(ev['target'])
        if not targets:
            raise AnalysisBroken('PeriodicEventHandler starts no thread')
        for f, run in zip(ms_, runs):
            where = 'PeriodicEventHandler::' + f['name']
            if any(True for ev in run.events('cvwait')) and not any(True for ev in run.events('spawn', 'join')):
                n += 1
                for ev in run.events('cvwait'):
                    t = ev.get('timeout')
                    ok = bool(ev.get('timed')) and t is not None and is_period(t, PE)
                    ctx.oblige('period', ok, where, ev['l'], 'does not wait for one period (in milliseconds)')

                def step(ms, ev):
                    kd = ev['k']
                    if kd in ('cvwait', 'resleep') and ms == 'elapsed':
                        return [('!', 'one-per-period', 'a period has elapsed and no event was raised', 'waiting')]
                    if kd == 'awake':
                        return ['elapsed' if ev.get('why') == 'timeout' else 'waiting']
                    if kd == 'call' and ev['sq'].split('::')[-1] == 'event_occurred_':
                        if ms != 'elapsed':
                            return [('!', 'one-per-period', 'raises an event although no period has elapsed since the last one (woken up to stop, or spuriously)', 'waiting')]
                        return ['waiting']
                    return None

                def final(ms, kind, st, val):
                    if kind != 'return':
                        return ('ends', 'the thread ends with an exception')
                    if decide(truth(get2(st, FL)), st.facts) is not False:
                        return ('ends', 'the thread ends although the handler is active' if ms != 'elapsed' else 'a period has elapsed and no event was raised')
                judge(ctx, run, where, f, 'waiting', step, final, 'one-per-period')
        # --- start and stop
        for name, kind in (('callback_set_nts_', 'spawn'), ('callback_unset_nts_', 'join')):
            for f in named(ctx, c, name):
                n += 1
                where = 'PeriodicEventHandler::' + name
                run = ctx.run(f, c, key='per', opaque=opq, running=name != 'callback_set_nts_')
                if kind == 'spawn':
                    def step(ms, ev):
                        if ev['k'] in ('write', 'xchg') and ev['path'] == FL:
                            return [ev['val'] == C1]
                        if ev['k'] == 'spawn' and not ms:
                            return [('!', 'starts', 'starts the thread before the handler is marked as active: the thread ends at once', True)]
                        return None

                    def final(ms, kd, st, val):
                        if kd == 'return' and not ms:
                            return ('starts', 'the handler is not active after a callback was set')
                    judge(ctx, run, where, f, False, step, final, 'starts')
                else:
                    stop_order(ctx, run, where, f, FL, C0, cvs, muts, 'stops')
    ctx.need(n, 4, 'operations of PeriodicEventHandler')


def get2(st, p):
    v = st.store.get(p)
    return v if v is not None else k(*p)


# ------------------------------------------------------------------ E06
def E06(ctx):
    """signals"""
    n = 0
    for r in ctx.cls(EV + 'SignalManager'):
        c = r['u']
        sh = 'SignalManager::'
        fl = [f for f in r['fields'] if not f.get('static')]
        CB = one('SignalManager', 'its callbacks', [f['name'] for f in fl if f['t'].startswith(('std::map<', 'std::unordered_map<'))])
        TH = one('SignalManager', 'its thread', [f['name'] for f in fl if f['t'] == 'std::thread'])
        SP = one('SignalManager', 'its state', [f['name'] for f in fl if is_bool(f['t'])])
        ID = one('SignalManager', 'its last id', [f['name'] for f in fl if unconst(f['t']).replace('std::atomic<', '').rstrip('>') in ('unsigned int', 'uint32_t', 'eprosima::utils::event::UniqueCallbackId')])
        ms_ = [f for f in own(ctx, c) if f['kind'] == 'method' and not f.get('implicit')]
        allr = {f['name']: (f, ctx.run(f, c)) for f in ms_}
        ctors = [f for f in own(ctx, c) if f['kind'] == 'ctor' and not f.get('implicit') and not f['params']]
        # --- the callbacks are guarded
        common, sites = None, []
        for name, (f, run) in allr.items():
            for ev in run.events('read', 'write', 'cread', 'cmut', 'ewrite', 'xchg', 'iter', 'iterend', 'cbcall'):
                p = ev.get('path')
                if ev['k'] == 'cbcall':
                    p = ev['val'][1] if ev['val'][0] == 'fld' else None
                if p is None or p[:2] != CB:
                    continue
                held = {x[0] for x in ev['locks'] if x[1] in ('x', 'e', True) or holds_excl(ev, x[0])}
                sites.append((f, ev))
                common = held if common is None else common & held
        n += len(sites)
        ctx.need(len(sites), 3, 'accesses of the callbacks of a SignalManager')
        if common:
            ctx.oblige('guarded', True, sh + CB[1], r['loc'], '')
        else:
            for f, ev in sites:
                held = [x[0] for x in ev['locks']]
                ctx.oblige('guarded', bool(held) and all(any(h in [y[0] for y in e2['locks']] for h in held) for _, e2 in sites), sh + f['name'], ev['l'],
                           'the callbacks are accessed without the mutex that the others hold: a callback can run while, or after, it is unregistered')
        # --- register
        for f in named(ctx, c, 'register_callback'):
            n += 1
            run = still(ctx, f, c, 'sig')
            a = pv(f, 0)
            bad = None
            for node, kind, st, val in run.g.exits:
                v = result(st, val)
                if kind != 'return':
                    bad = bad or (node, 'ends with an exception')
                elif v != add(k(*ID), 1) or get(st, ID) != v:
                    bad = bad or (node, 'does not return a new id')
            ctx.oblige('registered', bad is None and bool(run.g.exits), sh + f['name'], f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad else ())

            def step(ms, ev):
                if ev['k'] == 'cmut' and ev['path'] == CB:
                    if ms:
                        return [('!', 'registered', 'changes the callbacks twice', ms)]
                    if ev['name'] == 'operator[]':
                        return [('at', ev['args'][0])]
                    if ev['name'] in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
                        flat = leaves(ev['args'])
                        for sub in ev.get('argsub') or ():
                            if sub:
                                flat += leaves(tuple(sub.values()))
                        key = [x for x in flat if x == add(k(*ID), 1)]
                        cb = [x for x in flat if is_arg(x, a) or x == ('p', a)]
                        return [('done', key[0] if key else None) if cb else ('at', None)]
                    return [('!', 'registered', 'removes callbacks', ms)]
                if ev['k'] in ('write', 'ewrite') and ev['path'][:2] == CB and len(ev['path']) > 2 and ms and ms[0] == 'at':
                    if is_arg(ev['val'], a) or ev['val'] == ('p', a):
                        return [('done', ms[1])]
                    return [('!', 'registered', 'stores something else than the callback', ms)]
                return None

            def final(ms, kind, st, val):
                if kind == 'return' and (not ms or ms[0] != 'done' or ms[1] != result(st, val)):
                    return ('registered', 'the callback is not stored under the id that is returned')
            judge(ctx, run, sh + f['name'], f, None, step, final, 'registered')
        # --- unregister
        for f in named(ctx, c, 'unregister_callback'):
            n += 1
            run = still(ctx, f, c, 'sig')
            a = ('p', pv(f, 0))

            def present(st):
                for q, pol in st.facts:
                    if isinstance(q, tuple) and q[0] == '==' and "'end'" in repr(q) and 'find' in repr(q) and repr(a) in repr(q):
                        return not pol
                    if isinstance(q, tuple) and 'count' in repr(q) and repr(a) in repr(q):
                        return pol if q[0] != '==' else not pol
                return None

            def step(ms, ev):
                if ev['k'] == 'cmut' and ev['path'] == CB:
                    arg = ev['args'][0] if ev.get('args') else None
                    if ev['name'] == 'erase' and len(ev['args']) == 1 and (arg == a or arg[:1] == ('it',) and 'find' in repr(arg) and repr(a) in repr(arg)):
                        return [ms + 1]
                    return [('!', 'unregistered', 'removes something else than the callback with the given id', ms)]
                return None

            def final(ms, kind, st, val):
                pr = present(st)
                if kind == 'return' and (pr is False or ms != 1):
                    return ('unregistered', 'returns without having unregistered a callback with the given id')
                if kind == 'throw' and (pr is not False or not exc_named({'exc': st.exc}, ('InconsistencyException',))):
                    return ('unregistered', 'throws although the callback was registered' if pr is not False else 'throws something else than InconsistencyException')
                if pr is None:
                    return ('unregistered', 'does not tell apart whether the id is registered')
            judge(ctx, run, sh + f['name'], f, 0, step, final, 'unregistered')
            if {kd for _, kd, _, _ in run.g.exits} != {'return', 'throw'}:
                ctx.oblige('unregistered', False, sh + f['name'], f['loc'], 'never reports one of the outcomes')
        # --- unique ids: one atomic step
        wr = [(f, ev) for name, (f, run) in allr.items() for ev in run.events('write', 'xchg') if ev['path'] == ID]
        mus = None
        for f, ev in wr:
            h = {x[0] for x in ev['locks']}
            mus = h if mus is None else mus & h
        ctx.oblige('unique', bool(wr), sh + ID[1], r['loc'], 'the last id never changes')
        for name, (f, run) in allr.items():
            for ev in run.events('read'):
                if ev['path'] == ID and wr and not ev.get('atomic') and not (mus and mus & {x[0] for x in ev['locks']}):
                    ctx.oblige('unique', False, sh + name, ev['l'], 'reads the last id without the mutex: another id may have been given meanwhile')
        for f, ev in wr:
            ok = ev['val'] == add(ev.get('old') or C0, 1)
            ctx.oblige('unique', ok and (ev.get('atomic') or bool(mus)), sh + f['name'], ev['l'], 'an id is not the result of one exclusive increment: two callbacks can get the same')
        for name, (f, run) in allr.items():
            mine = [ev for ev in run.events('write', 'xchg') if ev['path'] == ID]
            if not mine:
                continue
            for node, kind, st, val in run.g.exits:
                if kind == 'return':
                    ctx.oblige('unique', any(result(st, val) == ev['val'] for ev in mine), sh + name, f['loc'], 'returns an id read after others may have changed it', path_to(ctx, run, node))
        # --- delivery
        disp = [(f, run) for name, (f, run) in allr.items() if any(ev['val'][0] == 'fld' and ev['val'][1][:2] == CB for ev in run.events('cbcall'))
                and not any(True for ev in run.events('cvwait'))]
        ctx.need(len(disp), 1, 'operations that call the callbacks')
        dnames = {f['name'] for f, _ in disp}
        for f, run in disp:
            n += 1
            srun = still(ctx, f, c, 'sig')

            def step(ms, ev):
                it, done = ms
                if ev['k'] in ('iter', 'iterend') and ev.get('path') == CB:
                    out = []
                    if it == 0:
                        out.append(('!', 'all-called', 'a registered callback is not called', (None, done)))
                    return out + [(0, done) if ev['k'] == 'iter' else (None, True)]
                if ev['k'] == 'cbcall' and ev['val'][0] == 'fld' and ev['val'][1][:2] == CB:
                    if it != 0:
                        return [('!', 'all-called', 'a callback is called more than once for a signal', (1, done))]
                    return [(1, done)]
                return None

            def final(ms, kind, st, val):
                if kind != 'return' or not ms[1]:
                    return ('all-called', 'ends before every registered callback has been called')
            judge(ctx, srun, sh + f['name'], f, (None, False), step, final, 'all-called')
        # --- the thread
        runs = [ctx.run(f, c, key='sigo', opaque=lambda fn: fn['name'] in dnames) for f in ms_ if not f.get('static')]
        waits = [(run.fn, run) for run in runs if any(True for ev in run.events('cvwait'))]
        ctx.need(len(waits), 1, 'threads that wait for signals')
        d = ctx.dtor(c)
        counts, muts, cvs = set(), set(), set()
        for _, run in waits:
            run.escape = 'std::thread'
        sl = lost_wakeups(ctx, c, [run for _, run in waits] + [ctx.run_dtor(c, key='sig', running=(TH,), confined=())])
        for s in sl:
            muts.add(s.m)
            cvs.add(s.cv)
            counts |= {p for p in s.deps() if p != SP}
        if len(counts) != 1:
            raise AnalysisBroken('the count of signals received is not recognised')
        CN = next(iter(counts))
        for f, run in waits:
            n += 1
            for ev in run.events('cvwait', 'resleep'):
                ctx.oblige('waits', decide(mk_cmp('<', C0, cur(ev, CN)), ev['facts']) is False and decide(truth(cur(ev, SP)), ev['facts']) is False, sh + f['name'], ev['l'],
                           'sleeps although a signal has been received or it has to stop')

            def step(ms, ev):
                taken, called = ms
                if ev['k'] in ('write', 'xchg') and ev['path'] == CN:
                    out = []
                    old = ev.get('old') or k(*CN)
                    if ev['val'] != add(old, -1):
                        return [('!', 'once-per-signal', 'does not take exactly one signal', (0, 0))]
                    if not called and decide(mk_cmp('<', C0, old), ev['facts']) is not True and not positive(ev, CN):
                        out.append(('!', 'once-per-signal', 'takes a signal that was not received', (0, 0)))
                    if taken:
                        out.append(('!', 'once-per-signal', 'takes two signals and calls the callbacks once', (1, called)))
                        return out
                    return out + [(0, 0) if called else (1, 0)]
                if ev['k'] == 'call' and ev['sq'].split('::')[-1] in dnames:
                    if called:
                        return [('!', 'once-per-signal', 'calls the callbacks twice for a signal', (taken, called))]
                    if not taken and not positive(ev, CN):
                        return [('!', 'once-per-signal', 'calls the callbacks although no signal was received', (0, 0))]
                    return [(0, 0) if taken else (0, 1)]
                if ev['k'] in ('cvwait', 'resleep') and (taken or called):
                    return [('!', 'once-per-signal', 'a signal is taken without calling the callbacks' if taken else 'a signal is handled without being taken', (0, 0))]
                return None

            def final(ms, kind, st, val):
                if kind != 'return' or ms != (0, 0):
                    return ('once-per-signal', 'the thread ends in the middle of a signal')
                if decide(truth(get2(st, SP)), st.facts) is not True:
                    return ('once-per-signal', 'the thread ends although it has not to stop')
            judge(ctx, run, sh + f['name'], f, (0, 0), step, final, 'once-per-signal')
        # --- the function that the system calls
        for f in ctors:
            n += 1
            run = still(ctx, f, c, 'sig')
            sigs = [ev for ev in run.events('call') if ev['sq'] in ('signal', 'sigaction', 'std::signal')]
            ok = len({ev['i'] for ev in sigs}) == 1 and sigs[0]['args'][0] == sigval(c) and sigs[0]['args'][1][0] == 'fnp'
            ctx.oblige('installed', ok, sh + 'SignalManager', sigs[0]['l'] if sigs else f['loc'], 'does not install one function of its own for its signal')

            def step(ms, ev):
                if ev['k'] == 'call' and ev['sq'] in ('signal', 'sigaction', 'std::signal'):
                    return [(ms[0] + 1, ms[1])]
                if ev['k'] == 'spawn':
                    return [(ms[0], ms[1] + 1)]
                if ev['k'] == 'init_member' and ev['path'][:1] == T and len(ev['path']) == 2 and ms[1]:
                    return [('!', 'installed', '%s is initialised after the thread was started' % ev['path'][1], ms)]
                return None

            def final(ms, kind, st, val):
                if kind == 'return' and ms != (1, 1):
                    return ('installed', 'does not install the signal handler and start one thread')
            judge(ctx, run, sh + 'SignalManager', f, (0, 0), step, final, 'installed')
            if not ok:
                continue
            for u in {ev['args'][1][1] for ev in sigs}:
                g = ctx.p.fn(u)
                if g is None or g.get('body') is None:
                    raise AnalysisBroken('the function installed for a signal is not known')
                run = ctx.run(g, c, key='sigf')
                n += 1

                def step(ms, ev):
                    if ev['k'] in ('acquire', 'acquired', 'cvwait', 'join', 'throw', 'new') or ev['k'] == 'call' and ev['sq'] not in ('signal', 'std::signal'):
                        return [('!', 'async-safe', 'locks, waits, logs or allocates in a signal handler: it can block for ever on what the interrupted thread holds', ms)]
                    if ev['k'] in ('write', 'xchg') and ev['path'] == CN:
                        if ms != 0 or not ev.get('atomic') or not ev.get('old') or ev['val'] != add(ev['old'], 1):
                            return [('!', 'counted', 'does not count exactly one signal in one step', 1)]
                        return [1]
                    if ev['k'] in ('write', 'xchg') and ev['path'][:1] == T and ev['path'][1:] != ('%cls',):
                        return [('!', 'async-safe', 'changes the object in a signal handler', ms)]
                    if ev['k'] == 'notify' and ev['cv'] in cvs:
                        return [2 if ms else ms]
                    return None

                def final(ms, kind, st, val):
                    if ms != 2:
                        return ('counted', 'a signal is not counted and then announced to the thread')
                judge(ctx, run, sh + g['name'], g, 0, step, final, 'counted')
        # --- destruction
        n += 1
        run = ctx.run_dtor(c, key='sigd', running=(TH,), still=True, confined=(T,))
        stop_order(ctx, run, sh + '~SignalManager', d, SP, C1, cvs, muts, 'stops')

        def step(ms, ev):
            if ev['k'] == 'join':
                return [1]
            if ev['k'] == 'destroy_member' and ev['path'][:1] == T and len(ev['path']) == 2 and ms == 0:
                return [('!', 'stops', '%s is destroyed before the thread has ended' % ev['path'][1], 1)]
            return None
        report(ctx, run, 'stops', monitor(ctx, run, 0, step))
        # --- one instance
        for f in named(ctx, c, 'get_instance'):
            n += 1
            run = ctx.run(f, c, key='sigi', opaque=lambda fn: fn['kind'] == 'ctor' and fn['name'] == 'SignalManager')
            objs = set()
            for node, kind, st, val in run.g.exits:
                v = result(st, val)
                objs.add(v[1] if v[0] == 'ref' and v[1][0] in ('g', 's', 'static') else None)
            ctx.oblige('one-instance', len(objs) == 1 and None not in objs, sh + f['name'], f['loc'], 'does not always return the one instance')
    ctx.need(n, 10, 'operations of SignalManager')


def leaves(x):
    if isinstance(x, tuple):
        out = [x]
        for y in x:
            out += leaves(y)
        return out
    return []


def positive(ev, p):
    """some value of p read before is known to be positive, and nobody else can have taken it (only this thread takes)"""
    for q, pol in ev['facts']:
        if isinstance(q, tuple) and q[:1] == ('<',) and q[1] == C0 and is_fld2(q[2], p) and pol:
            return True
        if isinstance(q, tuple) and q[:1] == ('==',) and not pol and (q[1] == C0 and is_fld2(q[2], p) or q[2] == C0 and is_fld2(q[1], p)):
            return True
    return False


def is_fld2(v, p):
    return isinstance(v, tuple) and v[:1] == ('fld',) and v[1] == p


def sigval(c):
    import re
    m = re.search(r'Signal(-?\d+)', c.split('SignalManager', 1)[1])
    return ('c', int(m.group(1))) if m else None



# ------------------------------------------------------------------ E07
NL = (10, 13, -1)


def E07(ctx):
    """lines read from the standard input"""
    R = reasons(ctx)
    n = 0
    for r in ctx.cls(EV + 'StdinEventHandler'):
        c = r['u']
        fl = [f for f in r['fields'] if not f.get('static')]
        ACT = one('StdinEventHandler', 'its counter of lines to read', [f['name'] for f in fl if 'CounterWaitHandler' in f['t']])
        HIS = one('StdinEventHandler', 'its history', [f['name'] for f in fl if 'CommandHistoryHandler' in f['t']])
        IGN = one('StdinEventHandler', 'whether input is ignored', [f['name'] for f in fl if is_bool(f['t']) and 'atomic' in f['t']])
        # --- asking for a line
        for f in named(ctx, c, 'read_one_more_line'):
            n += 1
            V = ACT + ('value_',)
            judge(ctx, ctx.run(f, c, key='e7'), 'StdinEventHandler::read_one_more_line', f, 0,
                  lambda ms, ev: None if ev['k'] not in ('write', 'xchg') or ev['path'] != V else
                  [ms + 1 if ms < 2 else 2] if ev['val'] == add(ev['old'], 1) else [('!', 'asked', 'does not ask for exactly one more line', 2)],
                  lambda ms, kind, st, val: ('asked', 'does not ask for exactly one more line') if kind == 'return' and ms != 1 else None, 'asked')
        for f in ctx.ctors(c):
            if f.get('body') is None:
                continue
            n += 1
            run = still(ctx, f, c, 'e7c', opaque=lambda fn: fn['name'] in ('set_callback', 'callback_set_nts_'))
            ks = [i for i, x in enumerate(f['params']) if unconst(x['t']) in ('int', 'unsigned int', 'long', 'unsigned long')]
            for _, kd, st, _ in run.g.exits:
                if kd != 'return':
                    continue
                ok = len(ks) == 1 and is_arg(get(st, ACT + ('value_',)), pv(f, ks[0])) and get(st, ACT + ('threshold_',)) == C0
                ctx.oblige('asked', ok, 'StdinEventHandler', f['loc'], 'does not start with the number of lines given asked for')
                ctx.oblige('history', get(st, IGN) == C0, 'StdinEventHandler', f['loc'], 'starts ignoring the input')
        for f in named(ctx, c, 'set_ignore_input'):
            n += 1
            run = still(ctx, f, c, 'e7')
            ok = bool(run.g.exits) and all(kd == 'return' and is_arg(get(st, IGN), pv(f, 0)) for _, kd, st, _ in run.g.exits)
            ctx.oblige('history', ok, 'StdinEventHandler::set_ignore_input', f['loc'], 'does not keep the value given')
        # --- the thread
        base = set()
        for u in (EV + 'CounterWaitHandler',):
            base |= {x['u'] for x in ctx.cls(u)}
        spawned = set()
        for g in own(ctx, c):
            if g.get('body') is not None and g['kind'] == 'method' and g['name'] == 'callback_set_nts_':
                for ev in ctx.run(g, c, key='e7').events('spawn'):
                    if ev['target'][0] in ('bind', 'fnp'):
                        spawned.add(ev['target'][1])
        routines = [f for f in own(ctx, c) if f['u'] in spawned]
        ctx.oblige('routine', len(routines) == 1, 'StdinEventHandler', r['loc'], 'the thread that reads is not recognised')
        for f in routines:
            n += 1
            routine(ctx, c, f, ACT, HIS, IGN, R)
    ctx.need(n, 3, 'operations of the handler of the standard input')


def edits_line(fn):
    """a function that is given a line, a position in it and a function that modifies both"""
    return any('std::function<' in x['t'] and 'string' in x['t'] for x in fn['params']) and fn['kind'] == 'func'


def routine(ctx, c, f, ACT, HIS, IGN, R):
    where = 'StdinEventHandler::' + f['name']
    stops = ('wait_and_decrement', 'event_occurred_', 'get_previous_command', 'get_next_command', 'add_command')
    edits = {g['q'].split('::')[-1] for g in ctx.p.functions.values() if g.get('body') is not None and g.get('file') == f.get('file') and edits_line(g)}
    width = lambda fn: fn['kind'] == 'func' and not fn['params'] and unconst(fn['ret']) in ('int', 'unsigned int', 'long', 'unsigned long') and fn.get('file') == f.get('file')
    shown = lambda fn: fn['kind'] == 'func' and fn.get('file') == f.get('file') and fn['ret'] == 'void' and not any(
        x['t'].endswith('&') and not x['t'].startswith('const ') or 'function<' in x['t'] for x in fn['params'])
    run = still(ctx, f, c, 'e7', opaque=lambda fn: fn['name'] in stops or fn['kind'] == 'func' and edits_line(fn) or shown(fn) or width(fn),
                keep=('wait_and_decrement',), snap=stops + ('getchar',) + tuple(edits))
    met = R['condition_met']

    def nm(ev):
        return ev['sq'].split('::')[-1] if ev['k'] == 'call' else None

    # the line and the position in it
    lines, poss = set(), set()
    for ev in run.events('call'):
        if nm(ev) in edits:
            loc = [x for x in ev['refs'] if x and x[0] == 'l']
            if len(loc) != 2:
                raise AnalysisBroken('%s: the line that %s modifies is not recognised' % (where, nm(ev)))
            lines.add(loc[0])
            poss.add(loc[1])
    if len(lines) != 1 or len(poss) != 1:
        raise AnalysisBroken('%s: the line being read is not recognised (%s)' % (where, lines))
    L, I = lines.pop(), poss.pop()
    clears = lambda v: v in (('emptyc',), ('s', ''), None)

    # --- the mode of the terminal
    def mode(ms, ev):
        st, sv = ms
        if ev['k'] in ('write', 'memberwise_assign', 'out') and sv and (ev.get('path') or ())[:len(sv)] == sv:
            return [('!', 'mode', 'modifies the mode saved', ms)]
        if ev['k'] != 'call':
            return None
        a = nm(ev)
        if a in ('tcgetattr', 'tcsetattr'):
            p = next((x[1] for x in ev['args'] if x[0] == 'ref'), None)
            if a == 'tcgetattr':
                return [('saved', p)] if st == 'start' else [('!', 'mode', 'saves the mode of the terminal after having changed it', ms)]
            if st == 'saved':
                return [('raw', sv)] if p != sv else None
            if st == 'raw':
                return [('done', sv)] if p == sv else None
            return [('!', 'mode', 'changes the mode of the terminal without having saved it' if st == 'start' else 'changes the mode of the terminal after having restored it', ('done', sv))]
        if a in ('getchar', 'wait_and_decrement') and st != 'raw':
            return [('!', 'mode', 'waits for input in the mode that the terminal had' if st != 'done' else 'waits for input after having restored the mode of the terminal', ms)]
        return None
    judge(ctx, run, where, f, ('start', None), mode, lambda ms, kind, st, val: ('mode', 'ends without restoring the mode of the terminal') if ms[0] != 'done' else None, 'mode')

    # --- one event per line asked for
    def is_met(w, facts):
        return decide(mk_cmp('==', ('c', met), w), facts) if w else None

    def char(ch, facts):
        for x in NL + (3,):
            if decide(mk_cmp('==', ('c', x), ch), facts) is True or x >= 0 and decide(mk_cmp('==', ('c', x), ('op', 'narrow', ch)), facts) is True:
                return x
        return None

    def step(ms, ev):
        w, cnt, ch, raised, added, cond = ms
        facts = ev['facts']
        if raised is not None and cond[0] is None or cond[1] is None:
            i, e = cond
            if raised is not None and i is None:
                i = flag(facts)
            if raised is not None and e is None:
                e = decide(mk_cmp('==', C0, ('size', raised)), facts) if not clears(raised) else True
            cond = (i, e)
        if ch and ch[3] is None:
            ch = ch[:3] + (char(ch[0], facts),)
        if ch and ch[2] is None:
            ch = (ch[0], ch[1], decide(mk_cmp('==', ('c', -1), ch[0]), facts), ch[3])
        ms = (w, cnt, ch, raised, added, cond)
        a = nm(ev)
        if a == 'getchar':
            new = ('r', 'getchar', ev['i'])
            bad = []
            if is_met(w, facts) is not True:
                bad.append(('!', 'on-demand', 'reads from the standard input although no line has been asked for', None))
            if cnt:
                bad.append(('!', 'one-event', 'goes on reading after the line has ended', None))
            if cnt == 0 and ch is None and 'store' in ev and not (clears(ev['store'].get(L)) and ev['store'].get(I) == C0):
                bad.append(('!', 'line', 'starts with something left from the previous line', None))
            un = ch[1] if ch else 0
            if ch:
                t = ch[2]
                if t is True:
                    bad.append(('!', 'eof', 'goes on reading after the end of the input', None))
                un = 0 if t is not None else un + 1
                if un > 4:
                    bad.append(('!', 'eof', 'does not notice the end of the input: the thread reads for ever', None))
                    un = 0
            to = (w, 0, (new, un, None, None), None, added, (None, None))
            return [b[:3] + (to,) for b in bad] or [to]
        if a == 'event_occurred_':
            v = ev['args'][0] if ev['args'] else None
            to = (w, min(cnt + 1, 2), ch, v, added, (flag(facts), None))
            if is_met(w, facts) is not True:
                return [('!', 'one-event', 'raises an event although no line has been asked for', to)]
            if cnt:
                return [('!', 'one-event', 'raises more than one event for a line', to)]
            x = ch[3] if ch else None
            if x is None:
                return [('!', 'one-event', 'raises an event although the line has not ended', to)]
            if x == 3:
                return [to if clears(v) else ('!', 'line', 'Ctrl+C does not give an empty line', to)]
            if v != ev['store'].get(L) and not (clears(v) and clears(ev['store'].get(L))):
                return [('!', 'line', 'the event does not carry the line that was read', to)]
            return [to]
        if a == 'add_command' and (ev['obj'] or ())[:2] == HIS:
            to = (w, cnt, ch, raised, min(added + 1, 2), cond)
            x = ch[3] if ch else None
            if ev['args'][0] != ev['store'].get(L) or raised is not None and ev['args'][0] != raised:
                return [('!', 'history', 'records something else than the line that was read', to)]
            if added:
                return [('!', 'history', 'records a line twice', to)]
            if flag(facts) is not False or decide(mk_cmp('==', C0, ('size', ev['args'][0])), facts) is not False or x not in NL:
                return [('!', 'history', 'records an empty line, or one to be ignored', to)]
            return [to]
        if a == 'wait_and_decrement' or ev['k'] == 'exit':
            bad = []
            if w and is_met(w, facts) is True:
                bad += check(ms, facts)
            elif w and is_met(w, facts) is not False:
                bad.append(('on-demand', 'does not look at why it was awaken'))
            elif w and a:
                bad.append(('on-demand', 'goes on after it has been disabled'))
            if a is None:
                return [('!',) + b + (ms,) for b in bad] or None
            to = (('r', 'wait_and_decrement', ev['i']), 0, None, None, 0, (None, None))
            return [('!',) + b + (to,) for b in bad] or [to]
        return [ms]

    def flag(facts):
        for q, pol in facts:
            if isinstance(q, tuple) and (q[:1] == ('fld',) and q[1] == IGN or q[:1] == ('r',) and q[-1] == IGN):
                return pol
        return None

    def check(ms, facts):
        w, cnt, ch, raised, added, cond = ms
        if cnt != 1:
            return [('one-event', 'no event for a line that was asked for')]
        x = ch[3] if ch else None
        if not added and x in NL and not (cond[0] is True or cond[1] is True):
            return [('history', 'a line is not recorded')]
        return []

    def final(ms, kind, st, val):
        w, cnt = ms[0], ms[1]
        if w and is_met(w, st.facts) is True:
            return ('on-demand', 'stops although it has not been disabled')
        if not w:
            return ('on-demand', 'does not wait until a line is asked for')
    judge(ctx, run, where, f, (None, 0, None, None, 0, (None, None)), step, final, 'one-event')

    # --- the position stays within the line
    def together(l, i):
        if l is None or i is None or i == C0 or i == ('size', l):
            return True
        if i[0] == 'c' and l[0] == 's':
            return i[1] <= len(l[1])
        if l[:2] == ('r', 'out') and i[:2] == ('r', 'out'):
            return l[2] == i[2]                             # both given by the same function that edits
        if l[:2] == ('r', 'phi') and i[:2] == ('r', 'phi'):
            return l[2] == i[2]
        return l[:2] == ('r', 'wid') and i[:2] == ('r', 'wid')

    def cursor(ms, ev):
        if (ev['k'] in ('loopend', 'merge') or nm(ev) in edits or nm(ev) == 'getchar') and 'store' in ev:
            if not together(ev['store'].get(L), ev['store'].get(I)):
                return [('!', 'cursor', 'the position may be out of the line', ms)]
        return None
    judge(ctx, run, where, f, 0, cursor, lambda ms, kind, st, val: None, 'cursor')
    clos = {}
    for v, q, ev, st in run.it.escapes:
        if q.split('::')[-1] in edits and v[0] == 'clos':
            clos.setdefault(v, st)
    ctx.oblige('cursor', bool(clos), where, f['loc'], 'nothing edits the line')
    for v, st in sorted(clos.items(), key=lambda x: str(x[0])):
        fn = run.it.closures.get(v[1])
        ps = [('P', x['n'] or 'arg%d' % i) for i, x in enumerate((fn or {}).get('params') or ())]
        cr = ctx.run_closure(run, v, st, key='e7', still=True, confined=tuple(ps))
        if cr is not None:
            closure(ctx, cr, where)
    # --- widths
    divided(ctx, where, f, c, width)


def closure(ctx, cr, where):
    """keeps 0 <= position <= size of the line"""
    fn = cr.fn
    ps = [('P', x['n'] or 'arg%d' % i) for i, x in enumerate(fn['params'])]
    s = [p for p, x in zip(ps, fn['params']) if 'string' in x['t']]
    i = [p for p, x in zip(ps, fn['params']) if 'string' not in x['t']]
    if len(s) != 1 or len(i) != 1:
        raise AnalysisBroken('%s: the parameters of the function that edits the line are not recognised' % where)
    s, i = s[0], i[0]
    S0, I0 = ('size', k(*s)), k(*i)

    def provable(cond, facts):
        fs = assume(mk_cmp('<', S0, I0), False, facts)
        return fs is None or not consistent(fs) or decide(cond, fs) is True or contradicts(cond, fs)

    def contradicts(cond, fs):
        x = assume(cond, False, fs)
        return x is None or not consistent(x)

    def pos(p):
        if p[0] == 'it' and p[1] == s:
            if p[2] == 'begin':
                return C0
            if isinstance(p[2], tuple) and p[2][0] == 'at':
                return plain(p[2][1])
        return None

    def plain(v):
        while isinstance(v, tuple) and v[:1] == ('op',) and v[1] in ('signed', 'unsigned') and len(v) == 3:
            v = v[2]
        if isinstance(v, tuple) and v[:1] == ('+',) and v[2][0] == 'c':
            return add(plain(v[1]), v[2][1])
        return v

    def step(ms, ev):
        if ms is None:
            return None
        if ev['k'] == 'cmut' and ev['path'] == s:
            a = ev['args']
            if ev['name'] == 'insert' and len(a) == 2 and pos(a[0]) is not None:
                P = pos(a[0])
                ok = provable(neg(mk_cmp('<', add(S0, ms), P)), ev['facts'])
                return [ms + 1 if ms < 3 else None] if ok else [('!', 'cursor', 'inserts out of the line', ms + 1)]
            if ev['name'] == 'erase' and len(a) == 1 and pos(a[0]) is not None:
                P = pos(a[0])
                ok = provable(mk_cmp('<', P, add(S0, ms)), ev['facts']) and provable(neg(mk_cmp('<', P, C0)), ev['facts'])
                return [ms - 1 if ms > -3 else None] if ok else [('!', 'cursor', 'erases out of the line', ms - 1)]
            if ev['name'] in ('erase', 'insert'):
                return [('!', 'cursor', 'changes the line at a place that is not recognised', ms)]
            if ev['name'] in ('push_back',):
                return [ms + 1]
            return [None]
        return None

    def final(ms, kind, st, val):
        if kind != 'return':
            return None
        i1 = plain(get(st, i))
        if i1 == C0:
            return None
        if ms is None:
            return None if i1 == ('size', get(st, s)) else ('cursor', 'the position may be out of the line')
        if i1 == ('size', get(st, s)):
            return None
        if not provable(neg(mk_cmp('<', add(S0, ms), i1)), st.facts):
            return ('cursor', 'the position may be beyond the end of the line')
        if i1 != I0 and not provable(neg(mk_cmp('<', i1, C0)), st.facts):
            return ('cursor', 'the position may be before the beginning of the line')
    judge(ctx, cr, where, fn, 0, step, final, 'cursor')


def divided(ctx, where, f, c, width):
    """every division made for the thread has a divisor that is not zero"""
    stops = ('wait_and_decrement', 'event_occurred_', 'get_previous_command', 'get_next_command', 'add_command', 'is_ignoring_input', 'set_terminal_mode_')
    names = tuple({g['q'].split('::')[-1] for g in ctx.p.functions.values() if g.get('body') is not None and width(g)})
    runs = [still(ctx, f, c, 'e7w', opaque=lambda fn: fn['name'] in stops or fn['kind'] == 'func' and edits_line(fn) or width(fn), keep=names, snap=names)]
    good = set()

    def nonzero(d, facts):
        if d[0] == 'c':
            return d[1] != 0
        return d[:1] == ('r',) and d[1] in good or decide(mk_cmp('==', C0, d), facts) is False or decide(mk_cmp('<', C0, d), facts) is True
    for g in ctx.p.functions.values():
        if g.get('body') is None or g.get('file') != f.get('file') or g['kind'] != 'func':
            continue
        if width(g):
            w = ctx.run(g, None, key='e7w', still=True)
            if w.g.exits and all(kd != 'return' or v is not None and nonzero(v, st.facts) for _, kd, st, v in w.g.exits):
                good.add(g['q'].split('::')[-1])
        elif edits_line(g):
            runs.append(ctx.run(g, None, key='e7w', still=True, opaque=lambda fn: fn['name'] in stops or width(fn), keep=names, snap=names))
    seen = {}
    for run in runs:
        for ev in run.events('div'):
            seen[ev['l']] = seen.get(ev['l'], True) and nonzero(ev['by'], ev['facts'])
    for l, ok in sorted(seen.items(), key=str):
        ctx.oblige('width', ok, where, l, 'divides by the width of the terminal, which may be zero')
