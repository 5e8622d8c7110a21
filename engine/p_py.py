"""P01, P02: the Python package, decided on every path of its methods (engine/pyint.py)."""
import ast

from facts import AnalysisBroken
from pyint import ALL, EQ, EXC, GT, LT, SWAP, Interp, Py

VALUE = ('sym', 'value')
TIMEOUT = ('sym', 'timeout')


def where(cls, name):
    return '%s.%s' % (cls, name)


def lines(evs, last=14):
    out = []
    for e in evs:
        d = {'read': e.get('name'), 'write': '%s := %s' % (e.get('name'), short(e.get('val'))), 'sleep': 'timeout=%s' % short(e.get('timeout')), 'call': e.get('q'),
             'invoke': short(e.get('f'))}.get(e['k'], '')
        out.append('%s:%d: %s %s' % (e['loc'][0], e['loc'][1], e['k'], d or ''))
    return out[-last:]


def short(v):
    if not isinstance(v, tuple):
        return str(v)
    if v[0] in ('const', 'sym'):
        return str(v[1])
    if v[0] == 'fld':
        return 'self.' + v[1]
    if v[0] == 'bin':
        return '(%s %s %s)' % (short(v[2]), v[1], short(v[3]))
    if v[0] == 'member':
        return '%s.%s' % (v[1], v[2])
    return v[0]


class P:
    def __init__(self, ctx):
        self.ctx = ctx
        self.py = Py()

    def ctor(self, cls):
        """Constructor: its paths, and what it leaves in fields that nothing else assigns."""
        it = Interp(self.py, cls)
        m = self.py.method(cls, '__init__')
        if m is None:
            raise AnalysisBroken('%s has no constructor' % cls)
        names = [a.arg for a in m[2].args.args[1:]]
        r = it.run('__init__', [('sym', n) for n in names])
        others = set()
        for c in self.py.bases(cls):
            d = self.py.find_cls(c)[1]
            for f in d.body:
                if isinstance(f, ast.FunctionDef) and f.name != '__init__':
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                            others.add(n.attr)
        st = r[0][0]
        const = {k: v for k, v in st.fields.items() if k not in others and v[0] == 'obj'}
        return it, r, const

    def run(self, cls, name, args, kw=(), raises=True):
        it0, r, const = self.ctor(cls)
        it = Interp(self.py, cls, const, it0.objs, raises)
        out = it.run(name, args, kw)
        self.ctx.entries += 1
        self.ctx.nodes += sum(len(s.ev) for s, _ in out)
        self.ctx.edges += len(out)
        self.ctx.functions |= it.methods
        return it, out


def decl(py, cls, name):
    m = py.method(cls, name)
    if m is None:
        raise AnalysisBroken('%s.%s not found' % (cls, name))
    return m


def params(d):
    return [a.arg for a in d.args.args]


def locate(m):
    return '%s:%d' % (m[1].rel, m[2].lineno)


def fact(st, bools, rels, v):
    """What a set of facts says of the truth of a term: True, False or None."""
    if v[0] == 'const':
        return bool(v[1])
    if v[0] == 'known':
        return v[2]
    if v[0] == 'not':
        x = fact(st, bools, rels, v[1])
        return None if x is None else not x
    if v[0] == 'cmp':
        _, want, a, b = v
        have = rels.get((a, b), ALL) if repr(a) <= repr(b) else frozenset(SWAP[x] for x in rels.get((b, a), ALL))
        return True if have <= want else False if not have & want else None
    if v in bools:
        return bools[v]
    return None


def no_more_than(rels, bools, v, n):
    """Whether the facts prove v <= n (n = 0: also by being false)."""
    if n == 0 and bools.get(v) is False:
        return True
    for (a, b), s in rels.items():
        if b == v:
            a, b, s = b, a, frozenset(SWAP[x] for x in s)
        if a == v and b[0] == 'const' and isinstance(b[1], (int, float)):
            if b[1] <= n and GT not in s:
                return True
            if b[1] <= n + 1 and s == frozenset((LT,)):
                return True
    return False


def P01(ctx):
    p = P(ctx)
    py = p.py
    base = 'WaitHandler'
    classes = [c for c in ('WaitHandler', 'IntWaitHandler', 'BooleanWaitHandler') if py.find_cls(c)]
    ctx.need(len(classes), 3, 'wait handler classes of the Python package')
    # ---- roles of the fields, from what the public interface does
    it, r, const = p.ctor(base)
    m = decl(py, base, '__init__')
    init = {k: v for k, v in r[0][0].fields.items()}
    ps = params(m[2])[1:]

    def field_of(v, what):
        if v[0] != 'fld':
            raise AnalysisBroken('%s is not a field of the wait handler' % what)
        return v[1]
    value = field_of(p.run(base, 'get_value', [])[1][0][1], 'what get_value returns')
    en = p.run(base, 'enabled', [])[1][0][1]
    enabled = field_of(en if en[0] != 'known' else en[1], 'what enabled returns')
    # the counter: the field that wait increases
    _, out = p.run(base, 'wait', [('sym', 'predicate'), TIMEOUT])
    cnt = None
    for s, v in out:
        for e in s.ev:
            if e['k'] == 'write' and e['val'][0] == 'bin' and e['val'][2:] == (e['old'], ('const', 1)):
                cnt = e['name']
    guarded = {value, enabled} | ({cnt} if cnt else set())
    sleeps = [e for s, v in out for e in s.ev if e['k'] == 'sleep']
    ctx.need(len(sleeps), 1, 'sleeps of wait')
    lock = sleeps[0]['lock']
    cv = sleeps[0]['cv']
    # ---- construction
    for c in classes:
        it, r, cst = p.ctor(c)
        m = decl(py, c, '__init__')
        names = params(m[2])[1:]
        for s, v in r:
            f = s.fields
            for role, fld, pos in (('value', value, 1), ('enabled', enabled, 0)):
                ctx.oblige('construct', f.get(fld) == ('sym', names[pos]), where(c, '__init__'), locate(m),
                           'the constructor does not leave the %s it is given in the object' % role)
            if cnt:
                ctx.oblige('construct', f.get(cnt) == ('const', 0), where(c, '__init__'), locate(m), 'the constructor does not start with no thread waiting')
            ctx.oblige('construct', v != EXC and not any(e['k'] == 'deadlock' for e in s.ev), where(c, '__init__'), locate(m), 'the constructor cannot finish')
    # ---- every public method: lock discipline, no lost wakeup
    for c in classes:
        for name, m in sorted(py.public(c).items()):
            d = m[2]
            if not params(d) or params(d)[0] != 'self':
                continue
            args = [('sym', a) for a in params(d)[1:]]
            it, out = p.run(c, name, args)
            ctx.oblige('returns', bool(out), where(c, name), locate(m), 'no path of this method returns')
            ctx.oblige('progress', not it.stuck, where(c, name), '%s:%d' % it.stuck[0][:2] if it.stuck else locate(m),
                       'a loop waits with the lock held, so that nothing can change what it waits for', path=lines(it.stuck[0][2]) if it.stuck else ())
            for s, v in out:
                discipline(ctx, c, name, m, s, guarded, value, enabled, cnt, lock, cv)
    # ---- what each method does
    for c in classes:
        effects(ctx, p, c, 'set_value', {value: lambda it, o, a: a[0]}, 1)
        effects(ctx, p, c, 'enable', {enabled: lambda it, o, a: ('const', True)}, 0)
        effects(ctx, p, c, 'disable', {enabled: lambda it, o, a: ('const', False)}, 0)
        effects(ctx, p, c, 'get_value', {}, 0, ret=value)
        effects(ctx, p, c, 'enabled', {}, 0, ret=enabled)
        blocking(ctx, p, c, enabled, cnt)
    effects(ctx, p, 'IntWaitHandler', 'increase', {value: lambda it, o, a: it.binop('Add', o, a[0])}, 1)
    effects(ctx, p, 'IntWaitHandler', 'decrease', {value: lambda it, o, a: it.binop('Sub', o, a[0])}, 1)
    effects(ctx, p, 'IntWaitHandler', 'increase', {value: lambda it, o, a: it.binop('Add', o, ('const', 1))}, 0)
    effects(ctx, p, 'IntWaitHandler', 'decrease', {value: lambda it, o, a: it.binop('Add', o, ('const', -1))}, 0)
    effects(ctx, p, 'BooleanWaitHandler', 'open', {value: lambda it, o, a: ('const', True)}, 0)
    effects(ctx, p, 'BooleanWaitHandler', 'close', {value: lambda it, o, a: ('const', False)}, 0)
    # ---- the reasons
    members(ctx, py)
    X = ('sym', 'x')
    for c, name, args, cond in (
            ('WaitHandler', 'wait', [('sym', 'predicate')], lambda v: ('app', ('sym', 'predicate'), (v,))),
            ('IntWaitHandler', 'wait', [('sym', 'predicate')], lambda v: ('app', ('sym', 'predicate'), (v,))),
            ('WaitHandler', 'wait', None, lambda v: ('const', False)),
            ('BooleanWaitHandler', 'wait', [], lambda v: v),
            ('IntWaitHandler', 'wait_equal', [X], lambda v: ('cmp', frozenset((EQ,)), v, X)),
            ('IntWaitHandler', 'wait_greater', [X], lambda v: ('cmp', frozenset((GT,)), v, X)),
            ('IntWaitHandler', 'wait_greater_equal', [X], lambda v: ('cmp', frozenset((GT, EQ)), v, X))):
        reasons(ctx, p, c, name, args, cond, value, enabled, cnt)


def discipline(ctx, c, name, m, s, guarded, value, enabled, cnt, lock, cv):
    w, loc = where(c, name), locate(m)
    pend = None
    bad = {'deadlock': None, 'unlocked': None, 'lost': None, 'early': None}
    for i, e in enumerate(s.ev):
        k = e['k']
        if k == 'deadlock':
            bad['deadlock'] = bad['deadlock'] or (e, e['why'])
        elif k in ('read', 'write') and e['name'] in guarded:
            if lock not in e['held']:
                bad['unlocked'] = bad['unlocked'] or (e, e['name'])
            if k == 'write':
                changes = e['val'] != e['old']
                wakes = changes and (e['name'] == value or (e['name'] == enabled and e['val'] != ('const', True)) or
                                     (e['name'] == cnt and not (split(e['val'])[0] == split(e['old'])[0] and split(e['val'])[1] > split(e['old'])[1])))
                if wakes:
                    pend = e
        elif k == 'notify':
            if e['cv'] == cv and e['all']:
                pend = None
            if e['lock'] not in e['held']:
                bad['unlocked'] = bad['unlocked'] or (e, 'notification')
        elif k == 'sleep':
            if e['lock'] not in e['held']:
                bad['unlocked'] = bad['unlocked'] or (e, 'wait')
            if e['held'].count(e['lock']) != len(e['held']):
                bad['deadlock'] = bad['deadlock'] or (e, 'a thread sleeps while it holds another lock')
            if pend is not None:
                bad['lost'] = bad['lost'] or (pend, pend['name'])
                pend = None
        elif k == 'release' and pend is not None:
            # the notification may come after the release only with the lock taken again at once (Python forbids it otherwise)
            if not any(x['k'] == 'notify' and x['cv'] == cv and x['all'] for x in s.ev[i:]):
                bad['lost'] = bad['lost'] or (pend, pend['name'])
                pend = None
    if pend is not None:
        bad['lost'] = bad['lost'] or (pend, pend['name'])
    if s.held:
        bad['deadlock'] = bad['deadlock'] or (s.ev[-1], 'the lock is still held when the method ends')

    def rep(kind, rule, msg):
        b = bad[kind]
        ctx.oblige(rule, b is None, w, '%s:%d' % b[0]['loc'] if b else loc, msg(b[1]) if b else '', path=lines(s.ev) if b else ())
    rep('deadlock', 'lock', lambda x: x)
    rep('unlocked', 'guarded', lambda x: '%s without the lock held' % x)
    rep('lost', 'wakeup', lambda x: 'a change of %s that can end a wait is not followed by the notification of every waiting thread' % x)


def effects(ctx, p, c, name, want, nargs, ret=None):
    m = decl(p.py, c, name)
    names = params(m[2])[1:]
    args = [('sym', a) for a in names[:nargs]]
    it, out = p.run(c, name, args)
    for s, v in out:
        if v == EXC:
            ctx.oblige('effect', False, where(c, name), locate(m), 'the method ends with an exception', path=lines(s.ev))
            continue
        last = {}
        first = {}
        n = {}
        for e in s.ev:
            if e['k'] == 'write':
                first.setdefault(e['name'], e['old'])
                last[e['name']] = e['val']
                n[e['name']] = n.get(e['name'], 0) + 1
        acq = sum(1 for e in s.ev if e['k'] == 'acquire' and e['held'].count(e['m']) == 1)
        for f, fn in want.items():
            old = first.get(f, ('fld', f, 0))
            exp = fn(it, old, args)
            good = f in last and last[f] == exp
            if not good and f not in last:
                # nothing written: fine if the value was known to be that already
                cur = s.fields.get(f)
                good = any(b is exp[1] and k == ('fld', f, k[2]) for k, b in s.bools.items() if k[0] == 'fld' and k[1] == f) if exp[0] == 'const' and isinstance(exp[1], bool) else \
                    any(set((a, b)) == {('fld', f, a[2] if a[0] == 'fld' else b[2]), exp} and q == frozenset((EQ,)) for (a, b), q in s.rels.items() if 'fld' in (a[0], b[0]))
            ctx.oblige('effect', good, where(c, name), locate(m), '%s is left as %s' % (f, short(last.get(f)) if f in last else 'it was'), path=lines(s.ev))
            if exp != ('const', True) and exp != ('const', False) and f in last:
                ctx.oblige('effect', acq <= 1, where(c, name), locate(m), 'the value is read and written in two sections of the lock', path=lines(s.ev))
        for f in last:
            if f not in want:
                ctx.oblige('effect', last[f] == first[f], where(c, name), locate(m), '%s is changed' % f, path=lines(s.ev))
        if ret is not None:
            v2 = v[1] if v[0] == 'known' else v
            ctx.oblige('effect', v2[0] == 'fld' and v2[1] == ret, where(c, name), locate(m), 'what is returned is not the current one', path=lines(s.ev))


def blocking(ctx, p, c, enabled, cnt):
    m = decl(p.py, c, 'blocking_disable')
    it, out = p.run(c, 'blocking_disable', [])
    ctx.oblige('blocking', bool(out) and cnt is not None, where(c, 'blocking_disable'), locate(m), 'it never returns' if not out else 'waiting threads are not counted')
    for s, v in out:
        w = [i for i, e in enumerate(s.ev) if e['k'] == 'write' and e['name'] == enabled and e['val'] == ('const', False)]
        w = w or [i for i, e in enumerate(s.ev) if e['k'] == 'read' and e['name'] == enabled and s.bools.get(e['val']) is False and
                  not any(x['k'] == 'sleep' for x in s.ev[:i])]
        ctx.oblige('blocking', bool(w), where(c, 'blocking_disable'), locate(m), 'the handler is not disabled', path=lines(s.ev))
        # known when the lock is released for the last time: nobody waits
        ver = [e['val'] for e in s.ev if e['k'] == 'read' and e['name'] == cnt]
        ok = bool(ver) and no_more_than(s.rels, s.bools, ver[-1], 0) and w and (('fld', cnt, ver[-1][2]) == ver[-1]) and \
            not any(e['k'] in ('sleep', 'acquire') for e in s.ev[max(i for i, e in enumerate(s.ev) if e['k'] == 'read' and e['name'] == cnt):]) and \
            max(i for i, e in enumerate(s.ev) if e['k'] == 'read' and e['name'] == cnt) > w[0]
        ctx.oblige('blocking', bool(ok), where(c, 'blocking_disable'), locate(m), 'it returns although threads may still be waiting', path=lines(s.ev))
        for e in s.ev:
            if e['k'] == 'sleep':
                b, r = e['facts']
                f = e['fields'].get(cnt)
                ctx.oblige('blocking', f is not None and not no_more_than(r, b, f, 0) and (b.get(f) is True or any(f in k and EQ not in q for k, q in r.items()) or any(f in k for k in r)),
                           where(c, 'blocking_disable'), '%s:%d' % e['loc'], 'it sleeps although no thread is waiting', path=lines(s.ev))


def members(ctx, py):
    c = py.find_cls('AwakeReason')
    if c is None:
        raise AnalysisBroken('AwakeReason not found')
    vals = {}
    for n in c[1].body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                vals[n.targets[0].id] = ast.dump(n.value) if not (isinstance(n.value, ast.Call) and not n.value.args) else ('auto', n.targets[0].id)
    for a in ('disabled', 'timeout', 'condition_met'):
        ctx.oblige('reasons', a in vals and not any(b != a and vals[b] == vals[a] for b in vals), 'AwakeReason', '%s:%d' % (c[0].rel, c[1].lineno),
                   'the reason %s is missing or the same as another one' % a)


def reasons(ctx, p, c, name, args, cond, value, enabled, cnt):
    m = decl(p.py, c, name)
    for timed in (True, False, None):
        a = list(args or [])
        kw = [('timeout', TIMEOUT)] if timed else [('timeout', ('const', None))] if timed is False else []
        it, out = p.run(c, name, a, kw)
        got = set()
        for s, v in out:
            w, loc, path = where(c, name), locate(m), lines(s.ev)
            # the number of waiting threads
            delta, low, nap = 0, 0, 0
            for e in s.ev:
                if e['k'] == 'write' and e['name'] == cnt:
                    x = e['val']
                    (b1, k1), (b0, k0) = split(x), split(e['old'])
                    d = k1 - k0 if b1 == b0 else None
                    if d is None:
                        ctx.oblige('count', False, w, '%s:%d' % e['loc'], 'the number of waiting threads is changed by something other than one', path=path)
                        d = 0
                    delta += d
                    low = min(low, delta)
                if e['k'] == 'sleep':
                    ctx.oblige('count', delta == 1, w, '%s:%d' % e['loc'], 'a thread sleeps while it is not counted exactly once as waiting', path=path)
                    b, r = e['facts']
                    f = e['fields']
                    fe = f.get(enabled)
                    fv = f.get(value)
                    okay = fe is not None and fact(s, b, r, fe) is True
                    ctx.oblige('asleep', okay, w, '%s:%d' % e['loc'], 'a thread sleeps although the handler may be disabled', path=path)
                    q = cond(fv) if fv is not None else cond(('fld', value, -1))
                    ctx.oblige('asleep', fact(s, b, r, q) is False, w, '%s:%d' % e['loc'], 'a thread sleeps although its condition may be met', path=path)
                    t = e['timeout']
                    nap += 1
                    none = ('cmp', frozenset((EQ,)), TIMEOUT, ('const', None))
                    ctx.oblige('timeout', t == ('const', None) if not timed or fact(s, s.bools, s.rels, none) is True else
                               t == TIMEOUT and nap == 1 if e['pred'] is not None or nap == 1 and t == TIMEOUT else t != TIMEOUT and TIMEOUT in flat(t), w, '%s:%d' % e['loc'],
                               'the time a thread sleeps is not limited by exactly the timeout given', path=path)
            ctx.oblige('count', delta == 0 and low == 0, w, loc, 'a thread that has finished waiting%s is still counted as waiting, or one that never waited is not' % (' with an exception' if v == EXC else ''), path=path)
            if v == EXC:
                ctx.oblige('reasons', any(e['k'] == 'raised' for e in s.ev), w, loc, 'the wait ends with an exception of its own', path=path)
                continue
            # facts of the last section of the lock
            last = {}
            for e in s.ev:
                if e['k'] == 'read':
                    last[e['name']] = e['val']
                elif e['k'] in ('woken',) or (e['k'] == 'acquire' and e['held'].count(e['m']) == 1):
                    last = {}
            fe = last.get(enabled)
            en = fact(s, s.bools, s.rels, fe) if fe is not None else None
            fv = last.get(value)
            q = cond(fv) if fv is not None else cond(('fld', value, -1))
            met = fact(s, s.bools, s.rels, q)
            r = v[2] if v[0] == 'member' and v[1] == 'AwakeReason' else None
            if r is None:
                ctx.oblige('reasons', False, w, loc, 'the wait returns %s' % short(v), path=path)
                continue
            got.add(r)
            if en is False:
                ctx.oblige('reasons', r == 'disabled', w, loc, 'the reason is %s although the handler is disabled' % r, path=path)
            elif en is None:
                ctx.oblige('reasons', False, w, loc, 'the wait ends without looking whether the handler is disabled', path=path)
            elif met is True:
                ctx.oblige('reasons', r == 'condition_met', w, loc, 'the reason is %s although the condition is met' % r, path=path)
            elif met is False:
                ctx.oblige('reasons', r == 'timeout' and timed is True, w, loc, 'the reason is %s although the condition is not met%s' % (r, '' if timed else ' and there is no timeout'), path=path)
            else:
                ctx.oblige('reasons', False, w, loc, 'the wait ends without looking whether the condition is met', path=path)
        exp = {'disabled'} | ({'timeout'} if timed else set()) | ({'condition_met'} if cond(('fld', value, 0)) != ('const', False) else set())
        ctx.oblige('reasons', got == exp, where(c, name), locate(m), 'the reasons it can give are %s' % ', '.join(sorted(got)))


def split(v):
    if v[0] == 'bin' and v[1] == 'Add' and v[3][0] == 'const':
        return v[2], v[3][1]
    if v[0] == 'const' and isinstance(v[1], (int, float)):
        return None, v[1]
    return v, 0


def flat(t):
    out = []
    if isinstance(t, tuple):
        out.append(t)
        for x in t:
            out += flat(x)
    return out


CLOCKS = ('time.time', 'time.monotonic', 'time.perf_counter', 'time.time_ns', 'time.monotonic_ns', 'time.perf_counter_ns')


def count(ctx, it, out):
    ctx.entries += 1
    ctx.nodes += sum(len(s.ev) for s, _ in out)
    ctx.edges += len(out)
    ctx.functions |= it.methods


def P02(ctx):
    p = P(ctx)
    py = p.py
    # ---- Timer
    it = Interp(py, 'Timer')
    m = decl(py, 'Timer', '__init__')
    clocks = set()

    def now(s, v):
        """The call of a clock that gave this value."""
        return [e for e in s.ev if e['k'] == 'call' and e['q'] in CLOCKS and e.get('res') == v]
    for name in ('__init__', 'reset'):
        m = decl(py, 'Timer', name)
        it = TimeInterp(py, 'Timer')
        out = it.run(name, [])
        count(ctx, it, out)
        for s, v in out:
            ws = [e for e in s.ev if e['k'] == 'write']
            ok = len({e['name'] for e in ws}) == 1 and ws[-1]['val'][0] == 'now'
            ctx.oblige('timer', ok, where('Timer', name), locate(m), 'the timer does not start again at the current time', path=lines(s.ev))
            if ok:
                clocks.add((ws[-1]['name'], ws[-1]['val'][1]))
    m = decl(py, 'Timer', 'elapsed')
    it = TimeInterp(py, 'Timer')
    out = it.run('elapsed', [])
    count(ctx, it, out)
    for s, v in out:
        ok = v[0] == 'bin' and v[1] == 'Sub' and v[2][0] == 'now' and v[3][0] == 'fld' and clocks == {(v[3][1], v[2][1])}
        ctx.oblige('timer', ok, where('Timer', 'elapsed'), locate(m), 'it does not give the time from the start until now by the clock of the start', path=lines(s.ev))
        ctx.oblige('timer', not any(e['k'] == 'write' for e in s.ev), where('Timer', 'elapsed'), locate(m), 'asking for the time elapsed changes the timer', path=lines(s.ev))
    ctx.oblige('timer', len(clocks) == 1, 'Timer', locate(m), 'the start of the timer is not one time of one clock')
    # ---- decorator
    fn = py.find_fn('debug_function_decorator')
    if fn is None:
        raise AnalysisBroken('debug_function_decorator not found')
    loc = '%s:%d' % (fn[0].rel, fn[1].lineno)
    it = Interp(py)
    F = ('sym', 'func')
    out = it.run_fn('debug_function_decorator', [F])
    A, K = ('sym', 'args'), ('sym', 'kwargs')
    ctx.need(len(out), 1, 'paths of debug_function_decorator')
    for s, w in out:
        ctx.oblige('decorator', w[0] == 'clo' and not any(e['k'] == 'invoke' for e in s.ev), 'debug_function_decorator', loc, 'decorating does not give a function, or calls the one decorated')
        if w[0] != 'clo':
            continue
        d, env, mod, _ = it.clos[w[1]]
        a = d.args
        ok = a.vararg is not None and a.kwarg is not None and not a.args
        ctx.oblige('decorator', ok, 'debug_function_decorator', loc, 'the decorated function does not take every argument')
        if not ok:
            continue
        e2 = dict(env)
        e2[a.vararg.arg] = A
        e2[a.kwarg.arg] = K
        it.mod = mod
        for s2, v in it.invoke(s.fork(), d, e2, mod):
            inv = [e for e in s2.ev if e['k'] == 'invoke' and e['f'] == F]
            ctx.oblige('decorator', len(inv) == 1, 'debug_function_decorator', loc, 'the function decorated is called %d times' % len(inv), path=lines(s2.ev))
            for e in inv:
                ctx.oblige('decorator', e['args'] == (A,) and e['star'] == (True,) and e['kw'] == ((None, K),), 'debug_function_decorator', loc, 'the function decorated does not get exactly the arguments given', path=lines(s2.ev))
            v = v[1] if v[0] == 'known' else v
            if v != EXC:
                ctx.oblige('decorator', v[0] == 'app' and v[1] == F, 'debug_function_decorator', loc, 'the result of the function decorated is not returned', path=lines(s2.ev))
            elif not any(e['k'] == 'raised' for e in s2.ev):
                ctx.oblige('decorator', False, 'debug_function_decorator', loc, 'the decorator raises an exception of its own', path=lines(s2.ev))
            if v != EXC and any(e['k'] == 'raised' for e in s2.ev):
                ctx.oblige('decorator', False, 'debug_function_decorator', loc, 'an exception of the function decorated is lost', path=lines(s2.ev))
    ctx.entries += 1
    ctx.functions |= it.methods
    # ---- logger
    logger(ctx, p)


class TimeInterp(Interp):
    def apply(self, st, f, args, kw, n, star=()):
        if f[0] == 'mod' and f[1] in CLOCKS:
            self.n += 1
            self.emit(st, 'call', n, q=f[1], recv=None, args=(), kw=())
            return [(st, ('now', f[1], self.n))]
        return Interp.apply(self, st, f, args, kw, n, star)


LEVEL = {'DEBUG': 10, 'INFO': 20}


def logger(ctx, p):
    py = p.py
    c = 'CustomLogger'
    m = decl(py, c, '__init__')
    # loops over the handlers that there are: their number is not followed
    loops = any(isinstance(x, ast.For) and 'handlers' in ast.unparse(x.iter) for x in ast.walk(py.find_cls(c)[1]))
    L, N = ('sym', 'log_level'), ('sym', 'logger_name')
    it = Interp(py, c)
    out = it.run('__init__', [L, N])
    count(ctx, it, out)
    for s, v in out:
        q = [e for e in s.ev if e['k'] == 'call' and e['recv'] and e['recv'][0] in ('self', 'super')]
        sup = [i for i, e in enumerate(q) if e['recv'][0] == 'super' and e['q'] == '__init__']
        lev = [i for i, e in enumerate(q) if e['q'] == 'setLevel']
        add = [i for i, e in enumerate(q) if e['q'] == 'addHandler']
        rem = [i for i, e in enumerate(q) if e['q'] == 'removeHandler']
        ctx.oblige('logger', len(sup) == 1 and q[sup[0]]['args'][:1] == (N,) and all(i > sup[0] for i in lev + add), where(c, '__init__'), locate(m),
                   'the logger is not initialised once, first, with the name given', path=lines(s.ev))
        given = q[lev[-1]]['args'] == (L,) if lev else bool(sup) and (q[sup[0]]['args'][1:2] == (L,) or dict(q[sup[0]]['kw'] or ()).get('level') == L)
        ctx.oblige('logger', given, where(c, '__init__'), locate(m), 'the level given is not the level of the logger', path=lines(s.ev))
        ctx.oblige('logger', loops or len(add) - len(rem) == 1, where(c, '__init__'), locate(m), 'each message would be printed %d times' % (len(add) - len(rem)), path=lines(s.ev))
    m = decl(py, c, 'set_format')
    for s, v in list(out):
        before = len(s.ev)
        again = it.run('set_format', [('sym', 'format')], st=s.fork())
        for s2, v2 in again:
            q = [e for e in s2.ev[before:] if e['k'] == 'call']
            add = sum(e['q'] == 'addHandler' for e in q)
            removed = any(e['q'] in ('removeHandler', 'hasHandlers') for e in q) or any(e['k'] in ('read', 'write') and e.get('name') == 'handlers' for e in s2.ev[before:])
            ctx.oblige('logger', loops or add == 0 or removed, where(c, 'set_format'), locate(m), 'changing the format adds a handler: each message is printed once more', path=lines(s2.ev))
            ctx.oblige('logger', loops or any(e['q'] == 'setFormatter' for e in q), where(c, 'set_format'), locate(m), 'the format is not given to any handler', path=lines(s2.ev))
    for name, args, want in (('set_log_level', [L], (L,)), ('activate_debug', [], None)):
        m = decl(py, c, name)
        it = Interp(py, c)
        out = it.run(name, args)
        count(ctx, it, out)
        for s, v in out:
            lev = [e for e in s.ev if e['k'] == 'call' and e['q'] == 'setLevel']
            ok = bool(lev) and (lev[-1]['args'] == want if want else lev[-1]['args'] in ((('mod', 'logging.DEBUG'),), (('const', 10),)))
            ctx.oblige('logger', ok, where(c, name), locate(m), 'the level of the logger is not set to the one asked for', path=lines(s.ev))
