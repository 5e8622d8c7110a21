"""MultipleEventHandler, CommandReader."""
from dom import C0, C1, add, decide, mk_cmp, truth
from facts import AnalysisBroken
from interp import unconst
from lib import monitor, path_to
from p_db import judge
from p_event import EV, named, own, still
from p_misc import RET, T, get, is_arg, is_now, k, pv


def nm(ev):
    return ev['sq'].split('::')[-1] if ev['k'] == 'call' else None


def counted(ctx, run, where, f, rule, name, obj, args, what):
    """calls name exactly once, on obj with args (a predicate), and nothing else in between matters"""
    def step(ms, ev):
        if nm(ev) == name:
            if (ev['obj'] or ()) != obj:
                return None if obj is not None else [min(ms + 1, 2)]
            if not args(ev):
                return [('!', rule, what, min(ms + 1, 2))]
            return [min(ms + 1, 2)] if ms == 0 else [('!', rule, what + ' (more than once)', 2)]
        return None
    judge(ctx, run, where, f, 0, step, lambda ms, kind, st, val: (rule, what) if kind == 'return' and ms != 1 else None, rule)


# ------------------------------------------------------------------ E08
def E08(ctx):
    """handlers made of other handlers"""
    n = 0
    for r in ctx.cls(EV + 'MultipleEventHandler'):
        c = r['u']
        fl = [f for f in r['fields'] if not f.get('static')]
        hs = [f['name'] for f in fl if 'unique_ptr<' in f['t'] and 'EventHandler' in f['t']]
        if len(hs) != 1:
            raise AnalysisBroken('the handlers that a MultipleEventHandler owns are not recognised')
        HS = T + (hs[0],)
        W = 'MultipleEventHandler::'
        stops = ('set_callback', 'event_occurred_', 'unset_callback')
        opq = lambda fn: fn['name'] in stops
        regs = [f for f in ctx.p.functions.values() if f.get('body') is not None and f['name'] == 'register_event_handler' and f.get('cls') == c]
        for f in regs:
            n += 1
            run = still(ctx, f, c, 'e8', opaque=opq)
            h = ('P', pv(f, 0))
            hv = ('p', pv(f, 0))
            clos = {}
            for v, q, ev, st in run.it.escapes:
                if q.split('::')[-1] == 'set_callback':
                    clos[v] = st

            def step(ms, ev):
                sets, keeps = ms
                a = nm(ev)
                if a == 'set_callback':
                    if ev['obj'] not in (h, ('?', hv)):
                        return [('!', 'registered', 'sets the callback of something else than the handler given', ms)]
                    if ev['args'] and ev['args'][0][0] not in ('clos', 'bind', 'fnp'):
                        return [('!', 'forwarded', 'the callback given to the handler is not recognised', (min(sets + 1, 2), keeps))]
                    return [(min(sets + 1, 2), keeps)]
                if ev['k'] == 'cmut' and ev['path'] == HS:
                    if ev['name'] in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace') and ev['args'] and ev['args'][-1] == hv:
                        return [(sets, min(keeps + 1, 2))]
                    return [('!', 'registered', 'changes the handlers registered before', ms)]
                if ev['k'] == 'drop_ptr' and ev['val'] == hv and not keeps:
                    return [('!', 'registered', 'destroys the handler instead of keeping it', ms)]
                return None

            def final(ms, kind, st, val):
                if kind != 'return':
                    return None
                if ms[0] != 1:
                    return ('forwarded', 'does not set the callback of the handler exactly once')
                if ms[1] != 1:
                    return ('registered', 'does not keep the handler exactly once')
            judge(ctx, run, W + 'register_event_handler', f, (0, 0), step, final, 'registered')
            for v, st in sorted(clos.items(), key=lambda x: str(x[0])):
                n += 1
                if v[0] != 'clos':
                    raise AnalysisBroken('register_event_handler: the callback is not a function given in place')
                cr = ctx.run_closure(run, v, st, key='e8', still=True, opaque=opq)
                if cr is None:
                    raise AnalysisBroken('register_event_handler: the callback is not analysed')
                counted(ctx, cr, W + 'register_event_handler', f, 'forwarded', 'event_occurred_', T, lambda ev: True, 'an event of the handler does not raise exactly one event')
        ctx.need(len(regs), 1, 'instances of register_event_handler')
        for f in ctx.ctors(c):
            if f.get('body') is None or f.get('implicit') or not f['params'] or 'function<' not in f['params'][0]['t']:
                continue
            n += 1
            run = still(ctx, f, c, 'e8', opaque=opq)
            counted(ctx, run, W + 'MultipleEventHandler', f, 'created', 'set_callback', T,
                    lambda ev: ev['args'] and is_given(ev['args'][0], pv(f, 0)), 'does not set the callback given exactly once')
        # --- destruction
        n += 1
        run = ctx.run_dtor(c, key='e8', opaque=opq)
        base = {T + (x['name'],) for x in ctx.p.all_fields(c) and [y for _, y in ctx.p.all_fields(c)] if x['name'] not in {y['name'] for y in fl}}

        def step(ms, ev):
            done, unset, drop = ms
            if nm(ev) == 'unset_callback':
                return [(done, True, drop)]
            if ev['k'] == 'drop_ptr' and ev['path'] == HS + ('[]',):
                return [(done, unset, True)]
            if ev['k'] == 'write' and ev['path'] == HS + ('[]',):
                return [(done, unset, False)] if drop else [('!', 'destroyed', 'gives up a handler without destroying it', ms)]
            if ev['k'] == 'destroy_member' and ev['path'] == HS:
                return [(True, unset, drop)]
            if ev['k'] == 'cmut' and ev['path'] == HS and ev['name'] == 'clear':
                return [(True, unset, drop)]
            if ev['k'] == 'destroy_member' and ev['path'] in base and not (done and unset):
                return [('!', 'destroyed', 'what the events of the handlers use is destroyed before the handlers' if not done else 'what the callback uses is destroyed before the callback is unset', (True, True, drop))]
            if ev['k'] in ('stdcall', 'call') and (ev.get('q') or ev.get('sq') or '').endswith('::release') and (ev.get('obj') or ())[:2] == HS:
                return [('!', 'destroyed', 'gives up a handler without destroying it', ms)]
            return None
        judge(ctx, run, W + '~MultipleEventHandler', ctx.dtor(c) or regs[0], (False, False, False), step, lambda ms, kind, st, val: None, 'destroyed')
    ctx.need(n, 3, 'operations of MultipleEventHandler')


def is_given(v, name):
    return is_arg(v, name) or v == ('p', name)


# ------------------------------------------------------------------ U01
def U01(ctx):
    """commands read from the standard input"""
    n = 0
    for r in ctx.cls('CommandReader'):
        c = r['u']
        fl = [f for f in r['fields'] if not f.get('static')]

        def fld(what, test):
            x = [f['name'] for f in fl if test(f['t'])]
            if len(x) != 1:
                raise AnalysisBroken('CommandReader has %d members that look like %s' % (len(x), what))
            return T + (x[0],)
        IN = fld('its input', lambda t: 'StdinEventHandler' in t and '&' not in t)
        QU = fld('its queue', lambda t: 'WaitHandler' in t)
        BU = fld('its builder', lambda t: 'EnumBuilder' in t)
        W = 'CommandReader::'
        stops = ('read_one_more_line', 'consume', 'produce', 'split_string', 'join_quoted_strings', 'string_to_enumeration', 'set_callback')
        opq = lambda fn: fn['name'] in stops
        # --- what its handler uses is there while the handler is
        order = [f['name'] for f in r['fields'] if not f.get('static')]
        for f in ctx.ctors(c):
            if f.get('body') is None or f.get('implicit') or len(f['params']) < 2:
                continue
            n += 1
            opc = lambda fn: fn['name'] in stops or fn['kind'] == 'ctor' and 'EventHandler' in fn['q']
            run = still(ctx, f, c, 'u1', opaque=opc)
            clos = {}
            for v, q, ev, st in run.it.escapes:
                clos[v] = st
            if not clos:
                raise AnalysisBroken('CommandReader: the callback given to its input is not recognised')
            for v, st in clos.items():
                cr = ctx.run_closure(run, v, st, key='u1', still=True, opaque=opq) if v[0] == 'clos' else None
                if cr is None:
                    raise AnalysisBroken('CommandReader: the callback given to its input is not analysed')
                fn = cr.fn
                used = set()
                for ev in cr.events():
                    for p in (ev.get('path'), ev.get('obj')):
                        if isinstance(p, tuple) and p[:1] == T and len(p) > 1:
                            used.add(p[1])
                cb = [('p', pv(fn, i)) for i in range(len(fn['params']))]
                counted(ctx, cr, W + 'CommandReader', f, 'delivered', 'produce', QU, lambda ev: ev['args'] and plain(ev['args'][0]) in [plain(x) for x in cb] + [k('P', pv(fn, 0))] or
                        ev['args'] and is_given(ev['args'][0], pv(fn, 0)), 'a line read is not put in the queue exactly once, as it is')
                for u in sorted(used):
                    ctx.oblige('alive', u in order and order.index(u) < order.index(IN[1]), W + 'CommandReader', r['loc'],
                               'the thread of %s uses %s, that is constructed after it and destroyed before it' % (IN[1], u))

            for _, kd, st, _ in run.g.exits:
                if kd == 'return':
                    vs = [v for p, v in st.store.items() if p[:2] == IN and p[-1] == 'value_']
                    if not vs:
                        raise AnalysisBroken('CommandReader: the number of lines asked for at the beginning is not recognised')
                    ctx.oblige('asked', all(v == C0 for v in vs), W + 'CommandReader', f['loc'], 'lines are read before any command is asked for')
                    en = QU + ('enabled_',)
                    if en in st.store:
                        ctx.oblige('asked', st.store[en] == C1, W + 'CommandReader', f['loc'], 'the queue of commands is not enabled')
        # --- reading
        for f in named(ctx, c, 'read_next_command'):
            n += 1
            run = still(ctx, f, c, 'u1', opaque=opq, keep=('string_to_enumeration',))
            out = ('P', pv(f, 0))

            def step(ms, ev):
                asked, got, args, conv = ms
                a = nm(ev)
                if a == 'read_one_more_line' and ev['obj'] == IN:
                    return [(min(asked + 1, 2), got, args, conv)] if not got else [('!', 'asked', 'asks for a line after having waited for one', ms)]
                if a == 'consume' and ev['obj'] == QU:
                    to = (asked, ('r', 'consume', ev['i']), args, conv)
                    if asked != 1 or got:
                        return [('!', 'asked', 'does not ask for exactly one line for each one it waits for', (1,) + to[1:])]
                    return [to]
                if a == 'split_string':
                    if not got or ev['args'][0] != got or ev['args'][1] != ('s', ' '):
                        return [('!', 'words', 'what is divided in words (at spaces) is not the line read', ms)]
                    return [(asked, got, ('split', ('r', 'split_string', ev['i'])), conv)]
                if a == 'join_quoted_strings':
                    if not args or args[0] != 'split' or ev['args'][0] != args[1]:
                        return [('!', 'words', 'what is joined are not the words of the line', ms)]
                    return [(asked, got, ('join', ('r', 'join_quoted_strings', ev['i'])), conv)]
                if a == 'string_to_enumeration':
                    b = ev['args'][0] if ev['args'] else None
                    refs = [x for x in ev['refs'] if x and x[:2] == out]
                    ok = args and args[0] == 'join' and b is not None and b[0] == 'fld' and (b[1] == ('?', args[1], '[]') or b[1] == out + ('arguments', '[]'))
                    if not ok or ev['obj'] != BU:
                        return [('!', 'converted', 'what is converted to a command is not the first word', (asked, got, args, ('r', 'string_to_enumeration', ev['i'])))]
                    if len(refs) < 1 or (out + ('command',)) not in refs:
                        return [('!', 'converted', 'the command is not stored in the result', (asked, got, args, ('r', 'string_to_enumeration', ev['i'])))]
                    if conv:
                        return [('!', 'converted', 'converts more than one word', ms)]
                    return [(asked, got, args, ('r', 'string_to_enumeration', ev['i']))]
                if ev['k'] == 'cread' and args and args[0] == 'join' and ev['path'] == out + ('arguments',) and (
                        ev['name'] in ('operator[]', 'at') and ev['args'][0] != C0 or ev['name'] in ('back', 'end', 'rbegin', 'cend', 'crbegin')):
                    return [('!', 'converted', 'what is converted to a command is not the first word', ms)]
                return None

            def final(ms, kind, st, val):
                if kind != 'return':
                    return None
                asked, got, args, conv = ms
                if asked != 1 or not got:
                    return ('asked', 'does not ask for one line and wait for it')
                if not args or args[0] != 'join' or get(st, out + ('arguments',)) != args[1]:
                    return ('words', 'the arguments are not the words of the line')
                if not conv or result(st, val) != conv and decided(conv, val, st) is not True:
                    return ('converted', 'does not return whether the first word is a command')
            judge(ctx, run, W + 'read_next_command', f, (0, None, None, None), step, final, 'asked')
        # --- quotes
        for f in named(ctx, c, 'join_quoted_strings'):
            n += 1
            quotes(ctx, f, c, W + 'join_quoted_strings')
        # --- there is always a first word
        for f in ctx.p.functions.values():
            if f.get('body') is not None and f['name'] == 'split_string' and f['q'].startswith('eprosima::utils::') and len(f['params']) == 2 and 'vector' not in f['params'][0]['t'] and 'set<' not in f['params'][1]['t']:
                n += 1
                run = ctx.run(f, None, key='u1', still=True, confined=(RET,) + tuple(('P', x['n']) for x in f['params']))
                some(ctx, run, f, 'split_string', None)
        for f in [f for f in own(ctx, c) if f['name'] == 'read_command_callback_' and f.get('body') is not None]:
            n += 1
    ctx.need(n, 4, 'operations of CommandReader')


def plain(v):
    while isinstance(v, tuple) and v[:1] == ('cast',):
        v = v[-1]
    return v


def result(st, val):
    return val


def decided(conv, val, st):
    """the value returned is the truth of conv on this path"""
    d = decide(truth(conv), st.facts)
    return d is not None and val == (C1 if d else C0) or None


def target(ev, fn):
    return ev['k'] == 'cmut' and ev['name'] in ('push_back', 'emplace_back') and ev['path'][0] in ('l', 'X')


def some(ctx, run, f, where, inp):
    """what is returned has at least one element (if what was given had)"""
    def step(ms, ev):
        return [1] if target(ev, f) else [0] if ev['k'] == 'cmut' and ev['name'] in ('clear', 'pop_back', 'erase') and ev['path'][0] in ('l', 'X') and 'vector' in str(f['ret']) and False else None

    def final(ms, kind, st, val):
        if kind != 'return' or ms:
            return None
        if inp is not None and decide(mk_cmp('<', C0, ('size', inp)), st.facts) is False:
            return None
        if inp is not None and decide(mk_cmp('==', C0, ('size', inp)), st.facts) is True:
            return None
        return ('first', 'gives no word at all for some line')
    judge(ctx, run, where, f, 0, step, final, 'first')


def quotes(ctx, f, c, where):
    run = ctx.run(f, c, key='u1q', still=True, snap=('substr',), confined=(T, RET) + tuple(('P', x['n']) for x in f['params']))
    inp = ('P', pv(f, 0))
    some(ctx, run, f, where, k(*inp))

    def step(ms, ev):
        if ev['k'] == 'cread' and ev['path'] == inp and ev['name'] in ('operator[]', 'at') and ev['args']:
            i = ev['args'][0]
            if i == ms:
                return None
            if i[0] == 'c' and ms[0] == 'c' and i[1] - ms[1] not in (0, 1):
                return [('!', 'joined', 'a word is skipped, or used twice', i)]
            return [i]
        if ev['k'] == 'loopend' and ms != ('c', -1):
            # the words of the next iteration begin after the last one used
            vs = [v for p, v in ev['store'].items() if p[0] == 'l' and len(p) == 3]
            if not any(v == add(ms, d) for v in vs for d in (0, 1)) and any(v == add(ms, d) for v in vs for d in (2, 3)):
                return [('!', 'joined', 'a word is skipped', ms)]
        if ev['k'] == 'cread' and ev['name'] == 'substr' and len(ev['args']) == 2:
            pos, m = ev['args']
            if m[:1] == ('+',) and m[2][0] == 'c' and m[2][1] < 0:
                ok = decide(mk_cmp('<', m[1], ('c', -m[2][1])), ev['facts']) is False
                if not ok and m[2][1] < -1:
                    return [('!', 'quotes', 'the opening quote is taken as the closing one', ms)]
        return None
    judge(ctx, run, where, f, ('c', -1), step, lambda ms, kind, st, val: None, 'joined')
