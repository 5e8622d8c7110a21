"""L01: the order of the locks."""
from facts import AnalysisBroken
from lib import path_to
from p_init import NS

RECURSIVE = ('std::recursive_mutex', 'std::recursive_timed_mutex')


def name(m):
    """A mutex is named by the member (or variable) it is: the same for every object of its class."""
    for x in reversed(m):
        if isinstance(x, str) and x not in ('[]', '*', '()'):
            return x.split('@')[-1]
    return str(m)


def local(m):
    return m[0] in ('l', 't')


def L01(ctx):
    p = ctx.p
    edges = {}                     # (held, asked for) -> example
    handlers = {}                  # functions that run when a signal arrives
    spawned = {}                   # class -> routines of its threads
    takes = {}                     # routine -> names of the mutexes it takes
    joins = []
    left = []                      # functions that end with a mutex held
    nlock = nsleep = 0
    for f in sorted(p.functions.values(), key=lambda f: f['u']):
        if f.get('body') is None or not f['q'].startswith(NS) or f.get('defaulted') or '(lambda' in f['q'] or '::vt_' in f['q']:
            continue
        o = p.method_owner(f['u'])
        cls = o['u'] if o else None
        run = ctx.run(f, cls, key='locks')
        node = {}
        seen = set()
        mine = takes.setdefault(f['u'], set())
        acq = [ev for ev in run.events('acquire')]
        if not acq and not any(True for _ in run.events('join', 'spawn', 'cvwait')) and \
                not any(ev.get('q') in ('signal', 'std::signal', 'sigaction') for ev in run.events('call', 'stdcall')):
            continue
        together = {}
        for ev in acq:
            together.setdefault((ev['i'], ev['ctx']), set()).add(ev['m'])
        for i, s in enumerate(run.g.succ):
            for ev, n in s:
                if ev is None:
                    continue
                if ev['k'] == 'acquire':
                    m = ev['m']
                    mine.add(name(m))
                    if local(m):
                        continue
                    nlock += 1
                    for h in ev['locks']:
                        if h[0] == m:
                            ok = ev['mt'] in RECURSIVE or (h[1] == 's' and ev['mode'] == 's')
                            if not ok or (m, ev['l']) not in seen:
                                seen.add((m, ev['l']))
                                ctx.oblige('again', ok, run.label, p.loc(ev['l']), '%s is asked for by the thread that holds it already' % name(m), () if ok else path_to(ctx, run, n))
                            continue
                        if local(h[0]) or len(together.get((ev['i'], ev['ctx']), ())) > 1 and h[0] in together[(ev['i'], ev['ctx'])]:
                            continue       # std::scoped_lock / std::lock of several mutexes: never a deadlock among them
                        a, b = name(h[0]), name(m)
                        if a == b:
                            ctx.oblige('order', False, run.label, p.loc(ev['l']), '%s of one object is taken with that of another object of the class held: two threads that do it the other way round block each other' % a, path_to(ctx, run, n))
                            continue
                        edges.setdefault((a, b), []).append((run, ev, n))
                elif ev['k'] == 'spawn' and ev.get('target') and ev['target'][0] in ('bind', 'fnp'):
                    w = p.method_owner(ev['target'][1])
                    if w is not None:
                        spawned.setdefault(w['u'], set()).add(ev['target'][1])
                elif ev['k'] in ('call', 'stdcall') and ev.get('q') in ('signal', 'std::signal'):
                    for a in ev['args']:
                        if a and a[0] == 'fnp':
                            handlers[a[1]] = ev
                elif ev['k'] == 'exit':
                    left.append((run, ev, n))
                elif ev['k'] == 'join':
                    joins.append((run, ev, n))
                elif ev['k'] == 'cvwait':
                    nsleep += 1
                    other = [h for h in ev['locks'] if h[0] != ev['m']]
                    ctx.oblige('sleep', not other, run.label, p.loc(ev['l']), 'a thread sleeps with %s held: whoever needs it to wake it up is blocked' % ', '.join(name(h[0]) for h in other),
                               path_to(ctx, run, n) if other else ())
    # ---- no mutex stays locked
    routines = set().union(*spawned.values()) if spawned else set()
    for run, ev, n in left:
        f = run.fn
        if f.get('access') == 2 and f['u'] not in routines or 'lock' in f['name'] and 'block' not in f['name'] or 'lock' in (f.get('ret') or ''):
            continue
        bad = sorted({name(h[0]) for h in ev['locks'] if h[1] == 'x' and not local(h[0])})
        ctx.oblige('left', not bad, run.label, p.loc(ev['l']), 'the function ends with %s locked: the next thread that asks for it is blocked for ever' % ', '.join(bad), path_to(ctx, run, n) if bad else ())
    # ---- the handler of a signal interrupts any thread, that may hold any mutex
    for u in sorted(handlers):
        f = p.fn(u)
        if f is None or f.get('body') is None:
            raise AnalysisBroken('signal handler without a body: ' + u)
        run = ctx.run(f, None, key='locks')
        bad = None
        for i, s in enumerate(run.g.succ):
            for ev, n in s:
                if ev is None or bad:
                    continue
                if ev['k'] == 'acquire' and not local(ev['m']):
                    bad = (ev, n, '%s is taken' % name(ev['m']))
                elif ev['k'] in ('join', 'cvwait'):
                    bad = (ev, n, 'something is waited for')
                elif ev['k'] in ('call', 'stdcall') and 'QueueLog' in str(ev.get('q')):
                    bad = (ev, n, 'a log entry is written, which takes the mutex of the log')
        ctx.oblige('signal', bad is None, run.label, p.loc(bad[0]['l']) if bad else p.loc(f['loc']) if not isinstance(f['loc'], str) else f['loc'],
                   'in the handler of a signal, that may have interrupted the thread that holds it, ' + bad[2] if bad else '', path_to(ctx, run, bad[1]) if bad else ())
    ctx.need(len(handlers), 1, 'signal handlers')
    # ---- the order exists: no cycle
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        todo, done = [(a, (a,))], set()
        while todo:
            x, path = todo.pop()
            if x == b:
                return path
            if x in done:
                continue
            done.add(x)
            todo += [(y, path + (y,)) for y in sorted(succ.get(x, ()))]
    for (a, b), exs in sorted(edges.items()):
        back = reach(b, a)
        if back is None:
            ctx.oblige('order', True, a + ' -> ' + b, p.loc(exs[0][1]['l']), '', sample='%s before %s (%d places)' % (a, b, len(exs)))
            continue
        run, ev, n = exs[0]
        other = edges[(back[0], back[1])][0]
        ctx.oblige('order', False, run.label, p.loc(ev['l']), '%s is taken with %s held, and elsewhere (%s, %s) the other way round: two threads can block each other' % (b, a, other[0].label, p.loc(other[1]['l'])),
                   path_to(ctx, run, n))
    # ---- joins
    nj = 0
    for run, ev, n in joins:
        fn = ev['fn']
        w = p.method_owner(fn['u']) if fn else None
        if w is None:
            continue
        nj += 1
        need = set()
        for r in spawned.get(w['u'], ()):
            need |= takes.get(r, set())
        bad = [name(h[0]) for h in ev['locks'] if name(h[0]) in need]
        ctx.oblige('join', not bad, run.label, p.loc(ev['l']), 'the end of a thread is waited for with %s held, that the thread takes' % ', '.join(sorted(set(bad))), path_to(ctx, run, n) if bad else ())
    ctx.need(nlock, 60, 'mutexes taken')
    ctx.need(len(edges), 5, 'nested locks')
    ctx.need(nsleep, 4, 'waits on condition variables')
    ctx.need(nj, 3, 'threads joined')
    ctx.need(sum(map(len, spawned.values())), 3, 'thread routines')
