"""Logging: the consumers of log entries, and the event handlers fed by the log."""
from dom import C0, C1, add, assume, consistent, decide, mk_cmp, truth
from facts import AnalysisBroken
from interp import unconst
from lib import NS, monitor, path_to
from p_db import judge
from p_event import EV, calls_of, named, own, still
from p_event2 import leaves, one
from p_misc import T, get, is_arg, k, pv, result

KINDS = {0: 'Error', 1: 'Warning', 2: 'Info'}


def is_entry(v, p):
    """the entry that was given"""
    return v == ('p', p) or isinstance(v, tuple) and v[:2] == ('fld', ('P', p)) or is_arg(v, p)


def settled(cond, facts):
    return decide(cond, facts)


# ------------------------------------------------------------------ G01
def G01(ctx):
    """what the consumers accept and print"""
    n = 0
    for r in ctx.cls('BaseLogConsumer'):
        c = r['u']
        fl = [f for f in r['fields'] if not f.get('static')]
        FI = one('BaseLogConsumer', 'its filter', [f['name'] for f in fl if f['t'].startswith(('std::map<', 'std::unordered_map<')) or f['t'].endswith('LogFilter')])
        VE = one('BaseLogConsumer', 'its verbosity', [f['name'] for f in fl if f['name'] != FI[1]])
        # --- construction
        for f in own(ctx, c):
            if f['kind'] != 'ctor' or f.get('implicit') or len(f['params']) != 1:
                continue
            n += 1
            run = still(ctx, f, c, 'log')
            P = ('P', pv(f, 0))
            bad = None
            for node, kind, st, val in run.g.exits:
                if kind != 'return':
                    continue
                if get(st, FI)[:2] != ('fld', P + ('filter',)) or get(st, VE)[:2] != ('fld', P + ('verbosity', 'value_')):
                    bad = bad or node
            ctx.oblige('configured', bad is None and bool(run.g.exits), 'BaseLogConsumer::BaseLogConsumer', f['loc'],
                       'the filter and the verbosity are not those of the configuration given', path_to(ctx, run, bad) if bad else ())
        # --- accept
        for f in named(ctx, c, 'accept_entry_'):
            n += 1
            where = 'BaseLogConsumer::accept_entry_'
            run = still(ctx, f, c, 'logk', keep=('regex_search',))
            E = ('P', pv(f, 0))
            kind_ok = mk_cmp('<', k(*VE), k(*(E + ('kind',))))
            rx = set()
            for ev in run.events('construct', 'cconstruct'):
                if ev.get('path') and any(is_fld_under(a, FI) for a in ev.get('args') or ()):
                    rx.add(ev['path'])
                    ctx.oblige('accepts', ev['args'][0][1][-1] == 'value_', where, ev['l'], 'the regular expression is not the one configured')
            ctx.oblige('accepts', bool(rx), where, f['loc'], 'does not use the regular expression configured')
            for ev in run.events('cmut', 'cread'):
                if ev['path'] == FI and ev['name'] in ('operator[]', 'at', 'find', 'count'):
                    ctx.oblige('accepts', ev['args'] and ev['args'][0] == k(*(E + ('kind',))), where, ev['l'], 'uses the filter of another kind than that of the entry')
            bad, seen = None, set()
            for node, kd, st, val in run.g.exits:
                if kd != 'return':
                    continue
                v = result(st, val)
                for pol in (True, False):
                    fs = st.facts
                    if v not in (C0, C1):
                        fs = assume(truth(v), pol, fs)
                        if fs is None or not consistent(fs):
                            continue
                    x = v if v in (C0, C1) else C1 if pol else C0
                    want = wanted(fs, E, kind_ok)
                    if want is None or x != want:
                        bad = bad or (node, 'accepts an entry that its verbosity or its filter excludes' if want == C0 else
                                      'rejects an entry that its verbosity and its filter accept' if want == C1 else 'decides without looking at the kind, the category and the message')
                    seen.add(x)
                    if v in (C0, C1):
                        break
            ctx.oblige('accepts', bad is None and seen == {C0, C1}, where, f['loc'], bad[1] if bad else 'accepts everything or nothing', path_to(ctx, run, bad[0]) if bad else ())
    # --- print
    for r in ctx.cls('StdLogConsumer'):
        c = r['u']
        for f in named(ctx, c, 'Consume'):
            n += 1
            where = 'StdLogConsumer::Consume'
            E = pv(f, 0)
            run = still(ctx, f, c, 'logp', opaque=lambda fn: fn['name'] == 'accept_entry_', keep=('accept_entry_',))
            K = k('P', E, 'kind')

            def step(ms, ev):
                name = ev['sq'].split('::')[-1] if ev['k'] == 'call' else None
                if name == 'accept_entry_':
                    ok = ev['args'] and is_entry(ev['args'][0], E)
                    return ['asked'] if ok else [('!', 'printed-once', 'asks about another entry', 'asked')]
                if name in ('print_message', 'print_context', 'print_header', 'print_timestamp', 'print_new_line') or \
                        ev['k'] in ('write', 'ewrite') and ev['path'][:1] == ('g',) and ev['path'][1].endswith(('@cout', '@cerr')):
                    if accepted(ev['facts']) is not True:
                        return [('!', 'printed-once', 'prints something although the entry was not accepted', ms)]
                if name in ('print_message', 'print_context', 'print_header', 'print_timestamp'):
                    if not is_entry(ev['args'][1], E):
                        return [('!', 'printed-once', 'prints another entry', ms)]
                    s = ev['refs'][0]
                    want = stream_of(K, ev['facts'])
                    if want is None:
                        return [('!', 'right-stream', 'chooses the stream without looking at the kind of the entry', ms)]
                    if s is None or s[0] != 'g' or not s[1].endswith('@' + want):
                        return [('!', 'right-stream', 'does not print to std::%s' % want, ms)]
                if name == 'print_message':
                    if ms == 'printed':
                        return [('!', 'printed-once', 'prints an entry twice', ms)]
                    return ['printed']
                return None

            def accepted(facts):
                for q, pol in facts:
                    if isinstance(q, tuple) and q[:2] == ('r', 'accept_entry_'):
                        return pol
                return None

            def final(ms, kind, st, val):
                if kind == 'return' and (accepted(st.facts) is not False) != (ms == 'printed'):
                    return ('printed-once', 'an accepted entry is not printed')
            judge(ctx, run, where, f, None, step, final, 'printed-once')
    # --- configuration
    for r in ctx.cls('BaseLogConfiguration'):
        c = r['u']
        for f in named(ctx, c, 'set'):
            n += 1
            where = 'BaseLogConfiguration::set'
            run = still(ctx, f, c, 'logc')
            P = ('P', pv(f, 0))
            if 'map<' in f['params'][0]['t'] or 'LogFilter' in f['params'][0]['t']:
                set_filter(ctx, run, where, f, T + ('filter',), P)
                continue
            V = T + ('verbosity',)
            bad = None
            for node, kind, st, val in run.g.exits:
                lower = decide(mk_cmp('<', k(*(P + ('fuzzy_level_',))), k(*(V + ('fuzzy_level_',)))), st.facts)
                want = V if lower is True else P if lower is False else None
                got = (st.store.get(V + ('value_',)) or k(*(V + ('value_',))), st.store.get(V + ('fuzzy_level_',)) or k(*(V + ('fuzzy_level_',))))
                if kind != 'return' or want is None or got != tuple(k(*(want + (x,))) for x in ('value_', 'fuzzy_level_')):
                    bad = bad or (node, 'a verbosity of a higher level is replaced' if want == V else 'a verbosity that is not of a lower level is ignored')
            ctx.oblige('levels', bad is None and bool(run.g.exits), where, f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad else ())
        for f in own(ctx, c):
            if f['kind'] == 'ctor' and not f.get('implicit') and not f['params']:
                n += 1
                run = still(ctx, f, c, 'logc')
                for node, kind, st, val in run.g.exits:
                    ok = get(st, T + ('verbosity', 'value_')) == C1 and get(st, T + ('verbosity', 'fuzzy_level_')) == C0
                    ctx.oblige('defaults', ok, 'BaseLogConfiguration::BaseLogConfiguration', f['loc'], 'the verbosity by default is not Warning with the default level', path_to(ctx, run, node))
    ctx.need(n, 5, 'operations of the log consumers')


def wanted(facts, E, low):
    cat = msg = None
    for q, pol in facts:
        if isinstance(q, tuple) and q[:2] == ('r', 'regex_search'):
            a = q[2][0] if len(q) > 2 and isinstance(q[2], tuple) and q[2] else None
            if a is None or a[0] != 'fld':
                continue
            if a[1] == E + ('context', 'category'):
                cat = pol if cat is None else cat
            elif a[1] == E + ('message',):
                msg = pol if msg is None else msg
    low = decide(low, facts)
    content = True if cat or msg else False if cat is False and msg is False else None
    if low is True or content is False:
        return C0
    return C1 if low is False and content is True else None


def is_fld_under(v, p):
    return isinstance(v, tuple) and v[:1] == ('fld',) and v[1][:len(p)] == p


def stream_of(K, facts):
    ks = [x for x in KINDS if decide(mk_cmp('==', ('c', x), K), facts) is not False]
    outs = {'cout' if x == 2 else 'cerr' for x in ks}
    if any(decide(mk_cmp('==', ('c', x), K), facts) is True for x in (0, 1)):
        return 'cerr'
    if decide(mk_cmp('==', ('c', 2), K), facts) is True or decide(mk_cmp('<', C1, K), facts) is True:
        return 'cout'
    if decide(mk_cmp('<', C1, K), facts) is False or decide(mk_cmp('<', K, ('c', 2)), facts) is True:
        return 'cerr'
    return outs.pop() if len(outs) == 1 else None


def set_filter(ctx, run, where, f, F, P):
    """per kind: replaced by the one given, iff the level given is not lower"""
    E1, E2 = F + ('[]', 'second'), P + ('[]', 'second')

    def close(ms, facts):
        kt, ks, wr, done, lower = ms
        if kt is None:
            return [], done
        if wr not in (0, 2):
            return [('levels', 'replaces only a part of a filter')], done
        if wr == 0 and lower is not True:
            return [('levels', 'a filter that is not of a lower level is ignored')], done
        return [], done | {kt}

    def step(ms, ev):
        kt, ks, wr, done, lower = ms
        lo = level(ev['facts'])
        if lo is not None and wr == 0 and lower is None:
            lower = lo
        r = move((kt, ks, wr, done, lower), ev)
        return r if r is not None else [(kt, ks, wr, done, lower)]

    def level(facts):
        return decide(mk_cmp('<', k(*(E2 + ('fuzzy_level_',))), k(*(E1 + ('fuzzy_level_',)))), facts)

    def turn(ms, ev, kt, ks):
        errs, done = close(ms, ev['facts'])
        if ev['k'] == 'iterend':
            done = done | {('c', x) for x in KINDS}
        st = (kt, ks, 0, done, None)
        return [('!', e[0], e[1], st) for e in errs] or [st]

    def move(ms, ev):
        kt, ks, wr, done, lower = ms
        if ev['k'] in ('cmut', 'cread') and ev['path'] in (F, P) and ev['name'] in ('operator[]', 'at', 'find'):
            key = ev['args'][0]
            if ev['path'] == F:
                return None if key == kt else turn(ms, ev, key, ks)
            return [(kt, key, wr, done, lower)]
        if ev['k'] in ('iter', 'iterend') and ev.get('path') == P:
            return turn(ms, ev, None, 'first' if ev['k'] == 'iter' else None)
        if ev['k'] in ('write', 'cmut') and ev['path'][:len(E1)] == E1:
            if ev['k'] == 'cmut' and ev['name'] not in ('operator=', 'assign'):
                return None
            if ev['k'] == 'write' and ev['val'][:1] == ('mut',):
                return None                              # seen as the mutation of the string itself
            if kt is None or kt != ks and ks != 'first':
                return [('!', 'levels', 'a filter is replaced by that of another kind', ms)]
            src = ev['args'][0] if ev['k'] == 'cmut' else ev['val']
            to = (kt, ks, min(wr + 1, 2), done, lower)
            if src != k(*(E2 + ev['path'][len(E1):])):
                return [('!', 'levels', 'a filter is replaced by something else than the one given', to)]
            if lower is not False and wr == 0:
                return [('!', 'levels', 'a filter of a higher level is replaced', to)]
            return [to]
        return None

    def final(ms, kind, st, val):
        if kind != 'return':
            return None
        if ms[4] is None and ms[2] == 0:
            ms = ms[:4] + (level(st.facts),)
        errs, done = close(ms, st.facts)
        if errs:
            return errs[0]
        if not {('c', x) for x in KINDS} <= done:
            return ('levels', 'does not consider the filter of every kind')
    judge(ctx, run, where, f, (None, None, 0, frozenset(), None), step, final, 'levels')


# ------------------------------------------------------------------ G02
def G02(ctx):
    """the event handlers fed by the log"""
    n = 0
    # --- the consumer that is registered in the log
    for r in ctx.cls(EV + 'LogConsumerConnection'):
        c = r['u']
        CB = one('LogConsumerConnection', 'its callback', [f['name'] for f in r['fields'] if 'LesseePtr' in f['t']])
        for f in named(ctx, c, 'Consume'):
            n += 1
            where = 'LogConsumerConnection::Consume'
            run = ctx.run(f, c, key='g2')
            E = pv(f, 0)

            def step(ms, ev):
                if ev['k'] == 'cbcall':
                    v = ev['val']
                    if v[0] != 'fld' or v[1][:2] != CB or not (len(ev['args']) == 1 and is_entry(ev['args'][0], E)):
                        return [('!', 'forwarded', 'calls something else than the handler with the entry', 1)]
                    if not any(x[0][:2] == CB for x in ev['locks']):
                        return [('!', 'forwarded', 'calls the handler without keeping it from being destroyed meanwhile', 1)]
                    return [('!', 'forwarded', 'delivers an entry twice', 1)] if ms else [1]
                return None

            def final(ms, kind, st, val):
                if kind != 'return':
                    return ('forwarded', 'ends with an exception')
                if not ms and not any(isinstance(q, tuple) and q[0] == '==' and ('null',) in q and pol and any(isinstance(x, tuple) and x[:1] == ('fld',) and x[1][:2] == CB for x in q)
                                      for q, pol in st.facts):
                    return ('forwarded', 'an entry is not delivered although the handler exists')
            judge(ctx, run, where, f, 0, step, final, 'forwarded')
    # --- the handlers
    for r in ctx.cls(EV + 'LogEventHandler'):
        c = r['u']
        EN = one('LogEventHandler', 'its entries', [f['name'] for f in r['fields'] if 'vector<' in f['t'] or 'deque<' in f['t'] or 'list<' in f['t']])
        for f in named(ctx, c, 'consume_'):
            n += 1
            where = 'LogEventHandler::consume_'
            run = ctx.run(f, c, key='g2', opaque=lambda fn: fn['name'] == 'event_occurred_')
            E = pv(f, 0)

            def step(ms, ev):
                if ev['k'] == 'cmut' and ev['path'][:2] == EN and ev['name'] not in ('reserve',):
                    if ms != 0:
                        return [('!', 'recorded', 'an entry is recorded twice' if ms == 1 else 'the event is raised before the entry is recorded', ms)]
                    if ev['name'] not in ('push_back', 'emplace_back') or len(ev['args']) != 1 or not is_entry(ev['args'][0], E):
                        return [('!', 'recorded', 'does not add the entry at the end', 1)]
                    if not any(x[0][:2] == EN for x in ev['locks']):
                        return [('!', 'recorded', 'the entries are changed without their lock', 1)]
                    return [1]
                if calls_of(ev, 'event_occurred_'):
                    if ms != 1:
                        return [('!', 'raised', 'the event is raised twice' if ms == 2 else 'the event is raised before the entry is recorded', 2)]
                    if len(ev['args']) != 1 or not is_entry(ev['args'][0], E):
                        return [('!', 'raised', 'the event does not carry the entry', 2)]
                    if any(x[0][:2] == EN for x in ev['locks']):
                        return [('!', 'raised', 'the callback runs while the entries are locked', 2)]
                    return [2]
                return None

            def final(ms, kind, st, val):
                if kind == 'return' and ms != 2:
                    return ('raised', 'no event is raised for an entry')
            judge(ctx, run, where, f, 0, step, final, 'raised')
        for f in own(ctx, c):
            if f['kind'] != 'ctor' or f.get('implicit') or any('EventHandler' in x['t'] for x in f['params']):
                continue
            where = 'LogEventHandler::LogEventHandler'
            run = still(ctx, f, c, 'g2', opaque=lambda fn: fn['name'] == 'set_callback')
            n += 1
            judge(ctx, run, where, f, 0, lambda ms, ev: [min(ms + 1, 2)] if calls_of(ev, 'RegisterConsumer') else None,
                  lambda ms, kind, st, val: ('connected', 'is not connected to the log exactly once') if kind == 'return' and ms != 1 else None, 'connected')
            cl = {}
            for node, kind, st, val in run.g.exits:
                for p, v in st.store.items():
                    if v[0] == 'clos' and p[0] == 'h':
                        cl[v] = st
            ctx.oblige('connected', len(cl) == 1, where, f['loc'], 'the function connected to the log is not recognised')
            for v, st in cl.items():
                s2 = st.clone()
                sub = [x['u'] for x in ctx.cls(EV + 'LogSevereEventHandler')][0]
                s2.store[T + ('%cls',)] = ('cls', sub)
                cr = ctx.run_closure(run, v, s2, key='g2c', opaque=lambda fn: fn['name'] == 'consume_')

                def step(ms, ev):
                    if calls_of(ev, 'consume_'):
                        if not ev['sq'].endswith('LogSevereEventHandler::consume_') or ev['obj'] != T:
                            return [('!', 'connected', 'does not let the class of the object consume the entry', min(ms + 1, 2))]
                        return [min(ms + 1, 2)]
                    return None
                judge(ctx, cr, where, f, 0, step, lambda ms, kind, st, val: ('connected', 'an entry is not consumed exactly once') if kind == 'return' and ms != 1 else None, 'connected')
    for r in ctx.cls(EV + 'LogSevereEventHandler'):
        c = r['u']
        TH = one('LogSevereEventHandler', 'its threshold', [f['name'] for f in r['fields'] if 'Kind' in f['t']])
        for f in named(ctx, c, 'consume_'):
            n += 1
            where = 'LogSevereEventHandler::consume_'
            run = ctx.run(f, c, key='g2', opaque=lambda fn: fn['name'] == 'event_occurred_')
            K = ('P', pv(f, 0), 'kind')

            def step(ms, ev):
                return [min(ms + 1, 2)] if calls_of(ev, 'event_occurred_') else None

            def final(ms, kind, st, val):
                if kind != 'return':
                    return ('severe', 'ends with an exception')
                over = None
                for q, pol in st.facts:
                    if isinstance(q, tuple) and q[0] == '<' and is_at(q[1], TH) and is_at(q[2], K):
                        over = pol
                    elif isinstance(q, tuple) and q[0] == '<' and is_at(q[1], K) and is_at(q[2], TH) and pol:
                        over = False
                    elif isinstance(q, tuple) and q[0] == '==' and pol and {is_at(q[1], TH) and is_at(q[2], K), is_at(q[1], K) and is_at(q[2], TH)} & {True}:
                        over = False
                if over is None:
                    return ('severe', 'an entry is treated without comparing its kind with the threshold' if ms else 'an entry at the threshold is ignored')
                if ms != (0 if over else 1):
                    return ('severe', 'an event is raised for an entry below the threshold' if over else 'no event, or more than one, is raised for an entry that reaches the threshold')
            judge(ctx, run, where, f, 0, step, final, 'severe')
        for f in own(ctx, c):
            if f['kind'] != 'ctor' or f.get('implicit') or len(f['params']) != 2:
                continue
            n += 1
            where = 'LogSevereEventHandler::LogSevereEventHandler'
            run = still(ctx, f, c, 'g2', opaque=lambda fn: fn['name'] == 'set_callback')
            P = ('p', pv(f, 1))

            def step(ms, ev):
                if calls_of(ev, 'SetVerbosity'):
                    return [min(ms + 1, 2)] if ev['args'][0] == P else [('!', 'verbosity', 'sets another verbosity than the threshold', 2)]
                return None

            def final(ms, kind, st, val):
                if kind != 'return':
                    return None
                if get(st, TH) != P:
                    return ('verbosity', 'the threshold is not the one given')
                more = decide(mk_cmp('<', C0, P), st.facts)
                if more is None:
                    more = {True: False, False: True}.get(decide(mk_cmp('==', C0, P), st.facts))
                if more is not False and not ms:
                    return ('verbosity', 'the log is not asked for the entries that reach the threshold')
                if more is False and ms:
                    return ('verbosity', 'lowers the verbosity of the log')
            judge(ctx, run, where, f, 0, step, final, 'verbosity')
    # --- checker
    for r in ctx.cls('testing::LogChecker'):
        c = r['u']
        fl = [f for f in r['fields'] if not f.get('static')]
        HN = one('LogChecker', 'its handler', [f['name'] for f in fl if 'LogSevereEventHandler' in f['t']])
        where = 'LogChecker::LogChecker'
        lo = hi = None
        for f in own(ctx, c):
            if f['kind'] != 'ctor' or f.get('implicit') or len(f['params']) != 3:
                continue
            n += 1
            run = still(ctx, f, c, 'g2', opaque=lambda fn: fn['name'] == 'set_callback')
            a, b, d = (('p', pv(f, i)) for i in range(3))
            nums = [T + (x['name'],) for x in fl if x['name'] != HN[1]]
            bad = None
            for node, kind, st, val in run.g.exits:
                if kind != 'return':
                    continue
                vs = {p: get(st, p) for p in nums}
                less = decide(mk_cmp('<', b, d), st.facts)
                if less is None:
                    less = {True: False, False: None}.get(decide(mk_cmp('<', d, b), st.facts))
                    less = less if less is not None else True if decide(mk_cmp('<', d, b), st.facts) is False else None
                mx = d if less else b
                lows = [p for p in nums if vs[p] == b]
                his = [p for p in nums if vs[p] == mx]
                if less and len(lows) == 1 and len(his) == 1:
                    lo, hi = lows[0], his[0]
                th = [v for p, v in st.store.items() if p[:2] == HN and len(p) == 3 and v == a]
                if less is None or not lows or not his or not th:
                    bad = bad or node
            ctx.oblige('checker', bad is None, where, f['loc'], 'the threshold or the bounds are not the ones given (the higher bound is at least the lower one)', path_to(ctx, run, bad) if bad else ())
        if lo is None or hi is None:
            ctx.oblige('checker', False, where, r['loc'], 'the bounds are not kept')
            continue
        for f in named(ctx, c, 'check_valid'):
            n += 1
            where = 'LogChecker::check_valid'
            run = still(ctx, f, c, 'g2')

            def step(ms, ev):
                if calls_of(ev, 'Flush'):
                    return [1]
                if ev['k'] == 'read' and ev['path'][:2] == HN and not ms:
                    return [('!', 'checker', 'counts the events before the log has been flushed', 1)]
                return None
            cnt = {ev['path'] for ev in run.events('read') if ev['path'][:2] == HN}

            def final(ms, kind, st, val):
                if kind != 'return' or len(cnt) != 1:
                    return ('checker', 'does not count the events')
                N = k(*next(iter(cnt)))
                few, many = decide(mk_cmp('<', N, k(*lo)), st.facts), decide(mk_cmp('<', k(*hi), N), st.facts)
                want = C0 if few is True or many is True else C1 if few is False and many is False else None
                if result(st, val) != want:
                    return ('checker', 'is valid although the number of events is out of the bounds' if want == C0 else 'is not valid although the number of events is within the bounds' if want == C1 else 'decides without comparing with both bounds')
            judge(ctx, run, where, f, 0, step, final, 'checker')
    ctx.need(n, 6, 'operations of the log handlers')


def is_at(v, p):
    return isinstance(v, tuple) and v[:1] == ('fld',) and v[1] == p
