"""Value types, timers, random generators: exact input/output relations of small operations."""
import itertools

import dom
from dom import C0, C1, NULL, const, consistent, decide, mk_cmp, neg, symbols, truth
from facts import AnalysisBroken
from interp import fmt_path, unconst
from lib import NS, assume_all, monitor, path_to, short_val

T = ('this',)
RET = ('X', 'ret')


# ------------------------------------------------------------------ helpers
def pv(f, i):
    return f['params'][i]['n'] or 'arg%d' % i


def inst(ctx, name, ta=None):
    """The class of that name (and template arguments)."""
    rs = ctx.cls(name)
    for r in rs:
        if ta is None or tuple(r.get('ta') or ()) == ta:
            return r['u']
    raise AnalysisBroken('no class %s%s' % (name, list(ta) if ta else ''))


def runc(ctx, f, cls, setup=None, key='misc', extra=(), **kw):
    """Run with all memory of the object and of the arguments private to the call (single threaded semantics)."""
    conf = (T, RET) + tuple(('P', x['n'] or 'arg%d' % i) for i, x in enumerate(f['params'])) + tuple(extra)
    return ctx.run(f, cls, key=key, setup=setup, confined=conf, **kw)


def k(*path):
    return ('fld', tuple(path), 'k')


def get(st, path):
    """Current content of a scalar location."""
    v = st.store.get(path)
    return v if v is not None else ('fld', path, 'k')


def result(st, val):
    """The value returned: objects by value are looked up in the return slot."""
    if val is not None and val[0] == 'obj':
        return get(st, val[1])
    return val


def designates(val, path):
    return val is not None and val[0] == 'ref' and val[1] == path


def table(ctx, rule, run, conds, expect, msg, where=None, loc=None, got=None, kinds=('return',)):
    """For every truth assignment of conds: each exit consistent with it gives what expect(assignment) says.

    got(kind, st, val, facts) -> the truth value or symbolic value found; expect -> value, None (anything goes) or a predicate."""
    bad = None
    n = 0
    for asg in itertools.product((True, False), repeat=len(conds)):
        want = expect(*asg)
        if want is None:
            continue
        for node, kind, st, val in run.g.exits:
            f = assume_all(st.facts, list(zip(conds, asg)))
            if f is None or not consistent(f):
                continue
            n += 1
            if kind not in kinds:
                bad = bad or (node, 'ends with an exception')
                continue
            if got is not None:
                g = got(kind, st, val, f)
            else:
                g = decide(truth(result(st, val)), f) if val is not None else None
            ok = want(g, st, f) if callable(want) else g == want
            if not ok:
                bad = bad or (node, 'when ' + (', '.join('%s%s' % ('' if a else 'not ', short_val(c)) for c, a in zip(conds, asg)) or 'called')
                              + ': ' + ('got %s' % (short_val(g) if isinstance(g, tuple) else g)))
    if not n and not bad:
        bad = (None, 'no path reaches a result')
    ctx.oblige(rule, bad is None, where or run.label, loc or run.fn['loc'], '%s (%s)' % (msg, bad[1]) if bad else msg,
               path_to(ctx, run, bad[0]) if bad and bad[0] is not None else ())


def post(ctx, rule, run, check, msg, where=None, loc=None, facts=()):
    """check(kind, st, val) holds at every (consistent) exit."""
    bad = None
    n = 0
    for node, kind, st, val in run.g.exits:
        f = assume_all(st.facts, list(facts))
        if f is None or not consistent(f):
            continue
        n += 1
        if not check(kind, st, val):
            bad = node
            break
    ok = bad is None and n > 0
    ctx.oblige(rule, ok, where or run.label, loc or run.fn['loc'], msg, path_to(ctx, run, bad) if bad is not None else ())


def func(ctx, q):
    fs = [f for f in ctx.p.functions.values() if f['q'] == q and f.get('body') is not None]
    if not fs:
        raise AnalysisBroken('function %s has no analysable definition' % q)
    return fs


# ------------------------------------------------------------------ Fuzzy
LEVELS = {-20: 'UNSET', 0: 'DEFAULT', 20: 'FUZZY', 40: 'SET', 60: 'HARD'}


def F01(ctx):
    """fuzzy values"""
    for ta in (('int',), ('bool',)):
        c = inst(ctx, 'Fuzzy', ta)
        fd = [f for _, f in ctx.p.all_fields(c)]
        if len(fd) != 2:
            raise AnalysisBroken('Fuzzy does not have a value and a level any more')
        names = {f['name']: f for f in fd}
        lv = [n for n, f in names.items() if unconst(f['t']) == 'short']
        vl = [n for n, f in names.items() if unconst(f['t']) == ta[0]]
        if len(lv) != 1 or len(vl) != 1:
            raise AnalysisBroken('Fuzzy does not have a value and a level any more')
        LV, VL = T + (lv[0],), T + (vl[0],)
        L, V = k(*LV), k(*VL)
        n = 0

        def same_bool(v, w, facts):
            """v and w are the same (boolean or other) value under facts"""
            if v == w:
                return True
            return False

        for f in ctx.methods(c):
            if f.get('kind') in ('dtor',):
                continue
            nm = f['name']
            n += 1
            ps = [pv(f, i) for i in range(len(f['params']))]
            pt = [unconst(x['t'].replace('&', '').strip()) for x in f['params']]
            where = 'Fuzzy<%s>::%s' % (ta[0], nm)
            if f.get('kind') == 'ctor':
                continue
            run = runc(ctx, f, c)
            if nm == 'is_valid':
                table(ctx, 'valid', run, [mk_cmp('<', L, C0)], lambda lt: not lt, 'is_valid is not "level at least default"', where)
            elif nm == 'is_set':
                table(ctx, 'set', run, [mk_cmp('<', L, const(20))], lambda lt: not lt, 'is_set is not "level at least fuzzy"', where)
            elif nm in ('operator==', 'operator!=') and pt[0] == ta[0]:
                O = k('P', ps[0])
                eq = nm == 'operator=='
                table(ctx, 'equals-value', run, [mk_cmp('<', L, C0), mk_cmp('==', V, O)],
                      lambda inv, same: (not inv and same) == eq, 'comparison with a plain value is not "valid and equal"', where)
            elif nm in ('operator==', 'operator!='):
                OL, OV = k('P', ps[0], lv[0]), k('P', ps[0], vl[0])
                eq = nm == 'operator=='
                table(ctx, 'equals-fuzzy', run,
                      [mk_cmp('<', L, const(20)), mk_cmp('<', OL, const(20)), mk_cmp('==', L, OL), mk_cmp('==', V, OV)],
                      lambda a, b, lev, val: ((a and b) or (lev and val)) == eq,
                      'comparison of two fuzzy values is not "both not set, or same level and same value"', where)
            elif nm == 'get_level':
                post(ctx, 'level-read', run, lambda kd, st, v: kd == 'return' and v == L, 'get_level does not return the level', where)
            elif nm == 'get_level_as_str':
                vals = sorted(LEVELS)
                table(ctx, 'level-name', run, [mk_cmp('==', L, const(x)) for x in vals],
                      lambda *a: (lambda g, st, fa: g == ('s', LEVELS[vals[a.index(True)]])) if sum(a) == 1 else
                      (lambda g, st, fa: g in (('s', ''), ('emptyc',))) if not any(a) else None,
                      'the name of a level is wrong', where, got=lambda kd, st, v, fa: result(st, v))
            elif nm == 'unset':
                post(ctx, 'unset', run, lambda kd, st, v: kd == 'return' and get(st, LV) == const(-20), 'unset does not leave the level unset', where)
            elif nm == 'set_level':
                post(ctx, 'set-level', run, lambda kd, st, v: kd == 'return' and get(st, LV) == ('p', ps[0]) and get(st, VL) == V,
                     'set_level does not set the level (only)', where)
            elif nm == 'set_value':
                post(ctx, 'set-value', run, lambda kd, st, v: kd == 'return' and get(st, LV) == ('p', ps[1]) and get(st, VL) == k('P', ps[0]),
                     'set_value does not store the value and the level given', where)
            elif nm.startswith('operator') or nm in ('get_reference', 'get_value'):
                def acc(kd, st, v):
                    if kd != 'return' or get(st, VL) != V or get(st, LV) != L:
                        return False
                    if f['ret'].endswith('&') or f['ret'].endswith('*'):
                        return designates(v, VL)
                    return result(st, v) == V
                if unconst(f['ret'].replace('&', '').replace('*', '').strip()) != ta[0]:
                    n -= 1
                    continue
                post(ctx, 'access', run, acc, 'does not give access to the value', where)
            else:
                n -= 1
            if nm.startswith(('is_', 'get_')) or nm in ('operator==', 'operator!='):
                post(ctx, 'read-only', run, lambda kd, st, v: get(st, VL) == V and get(st, LV) == L, 'a read changes the value or the level', where)
        ctx.need(n, 10, 'member functions of Fuzzy')
        m = 0
        for f in ctx.ctors(c):
            if len(f['params']) != 2:
                continue
            m += 1
            run = runc(ctx, f, c)
            ps = [pv(f, 0), pv(f, 1)]
            post(ctx, 'construct', run, lambda kd, st, v: kd == 'return' and get(st, LV) == ('p', ps[1]) and get(st, VL) in (k('P', ps[0]), ('p', ps[0])),
                 'construction does not store the value and the level given', 'Fuzzy<%s>::Fuzzy' % ta[0])
        ctx.need(m, 2, 'constructors of Fuzzy from a value')
    # default arguments and defaults, through clients
    for name, lev, chg in (('fuzzy_make', 40, True), ('fuzzy_make_move', 40, True), ('fuzzy_set_value', 40, True), ('fuzzy_set_level', 40, False), ('fuzzy_default', 0, None)):
        f = func(ctx, NS + 'vt_use::' + name)[0]
        run = runc(ctx, f, None)
        base = RET if f['ret'] != 'void' else ('P', 'f')

        def chk(kd, st, v):
            if kd != 'return' or get(st, base + (lv[0],)) != const(lev):
                return False
            if chg is True:
                return get(st, base + (vl[0],)) == k('P', 'v')
            if chg is False:
                return get(st, base + (vl[0],)) == k(*(base + (vl[0],)))
            return True
        post(ctx, 'defaults', run, chk, {'fuzzy_default': 'a default constructed Fuzzy does not have the default level'}.get(
            name, 'the level used when none is given is not "set", or the value is not the one given'), 'Fuzzy (%s)' % name.replace('fuzzy_', '').replace('_', ' '), ctx.p.records[c]['loc'])
        if name == 'fuzzy_default':
            post(ctx, 'defaults', run, lambda kd, st, v: get(st, base + (vl[0],)) == C0, 'the default value is not a value-initialised T', 'Fuzzy (default)', ctx.p.records[c]['loc'])


# ------------------------------------------------------------------ random generators
def is_arg(v, name):
    return v is not None and (v == ('p', name) or (v[0] == 'fld' and v[1] == ('P', name)))


def R01(ctx):
    """random managers"""
    for cn, locked in (('TSafeRandomManager', True), ('RandomManager', False)):
        c = inst(ctx, cn)
        fd = [f for _, f in ctx.p.all_fields(c)]
        gens = [T + (f['name'],) for f in fd if 'mersenne_twister_engine' in f['t']]
        dev = [T + (f['name'],) for f in fd if unconst(f['t']) == 'std::random_device']
        if len(gens) != 2 or len(dev) != 1:
            raise AnalysisBroken('%s does not have two seeded generators and a random device any more' % cn)
        # the sequence generator is the one seed() seeds
        seq = None
        sf = [f for f in ctx.methods(c) if f['name'] == 'seed']
        ctx.need(len(sf), 1, 'seed functions')
        for ev in ctx.run(sf[0], c).events('stdcall'):
            if ev.get('obj') in gens and ev['q'].endswith('::seed'):
                seq = ev['obj']
        if seq is None:
            ctx.oblige('seed', False, cn + '::seed', sf[0]['loc'], 'does not seed the generator of the sequence')
            continue
        other = [g for g in gens if g != seq][0]

        def ops(run, want, where, fn):
            """want: one of 'seed' (argument), 'draw-seq', 'draw-seeded' (argument), 'draw-device'"""
            bad = []
            arg = pv(fn, 0) if fn['params'] else None

            def step(ms, ev):
                # ms: (last seeding per generator as tuple, number of draws of the sequence, value of the last draw, sections)
                sd, drawn, res = ms
                kd = ev['k']
                o = ev.get('obj')
                if kd == 'stdcall' and o is not None and ev['q'].split('::')[-1] in ('seed', 'operator()', 'discard', 'operator=') and 'mersenne' in ev['q'] or (
                        kd == 'stdcall' and o in dev):
                    op = ev['q'].split('::')[-1]
                    out = []
                    if locked and o in gens and not any(x[0] == o for x in ev['locks']):
                        out.append(('!', 'generator-locked', 'uses %s without holding its lock' % fmt_path(o), ms))
                    if op == 'seed':
                        good = len(ev['args']) == 1 and arg is not None and is_arg(ev['args'][0], arg)
                        if o == seq and want != 'seed':
                            out.append(('!', 'sequence-untouched', 'reseeds the generator of the sequence', ms))
                        if o == seq and want == 'seed' and not good:
                            out.append(('!', 'seed', 'seeds the sequence with something else than the seed given', ms))
                        sd2 = tuple(x for x in sd if x[0] != o) + ((o, 'arg' if good else 'else', None),)
                        return out + [(sd2, drawn, res)]
                    if op == 'operator()':
                        if o == seq and want != 'draw-seq':
                            out.append(('!', 'sequence-untouched', 'consumes a number of the sequence', ms))
                        s = [x[1] for x in sd if x[0] == o]
                        what = 'device' if o in dev else 'seq' if o == seq else ('seeded' if s == ['arg'] else 'unseeded')
                        return out + [(tuple(x for x in sd if x[0] != o) if o not in dev else sd, drawn + ((what,) if len(drawn) < 4 else ()), what)]
                    if op in ('discard', 'operator=') and o == seq:
                        return [('!', 'sequence-untouched', 'changes the state of the sequence', ms)]
                    return out + [ms]
                if kd == 'construct' and 'mersenne' in str(ev.get('t')):
                    a = ev.get('args') or ()
                    return [(tuple(x for x in sd if x[0] != ev['path']) + ((ev['path'], 'arg' if len(a) == 1 and arg and is_arg(a[0], arg) else 'else', None),), drawn, res)]
                if kd == 'release' and locked:
                    # another thread may seed the generator once its lock is released
                    sd = tuple(x for x in sd if x[0] != ev['m'])
                    return [(sd, drawn, res)]
                if kd == 'exit':
                    if ev['kind'] != 'return':
                        return None
                    if want == 'seed':
                        return None
                    exp = {'draw-seq': 'seq', 'draw-seeded': 'seeded', 'draw-device': 'device'}[want]
                    out = []
                    if not drawn or drawn[-1] != exp:
                        out.append(('!', 'draw', {'seq': 'does not return the next number of the sequence', 'seeded': 'does not return the number drawn right after seeding with the seed given, in one locked section',
                                                  'device': 'does not return a number of the random device'}[exp]))
                    elif exp == 'seq' and drawn != ('seq',):
                        out.append(('!', 'draw', 'does not consume exactly one number of the sequence'))
                    v = ev.get('val')
                    while v is not None and v[0] == 'cast':
                        v = v[2]
                    if v is None or v[:2] != ('r', 'operator()'):
                        out.append(('!', 'draw', 'does not return the number drawn'))
                    return out or None
                return None

            for ru, msg, ev, tr in monitor(ctx, run, ((), (), None), step):
                bad.append(1)
                ctx.oblige(ru, False, where, ev['l'], msg, tr)
            if want == 'seed':
                # on every path the sequence is seeded exactly once
                def st2(ms, ev):
                    if ev['k'] == 'stdcall' and ev.get('obj') == seq and ev['q'].endswith('::seed'):
                        return [min(ms + 1, 2)]
                    if ev['k'] == 'exit' and ms != 1:
                        return [('!', 'seed', 'does not seed the sequence exactly once')]
                    return None
                for ru, msg, ev, tr in monitor(ctx, run, 0, st2):
                    bad.append(1)
                    ctx.oblige(ru, False, where, ev['l'], msg, tr)
            if not bad:
                ctx.oblige('generator', True, where, fn['loc'], '')
        n = 0
        for f in ctx.methods(c):
            if f.get('kind') in ('ctor', 'dtor'):
                continue
            want = {'seed': 'seed', 'sequence_rand': 'draw-seq', 'seeded_rand': 'draw-seeded', 'pure_rand': 'draw-device'}.get(f['name'])
            if f['name'] == 'rand' and len(f['params']) == 1:
                want = 'draw-seeded'
            if want is None:
                continue
            n += 1
            ops(ctx.run(f, c), want, '%s::%s' % (cn, f['name']), f)
        for f in ctx.p.functions.values():
            if f['q'].startswith(NS + cn + '::rand') and not f['params'] and f.get('body') is not None:
                n += 1
                pure = '#Vb1' in f['u'] or f.get('ta') in (['true'], ['1']) or '<true>' in f['q']
                ops(ctx.run(f, c), 'draw-device' if pure else 'draw-seq', '%s::rand<%s>' % (cn, 'true' if pure else 'false'), f)
        ctx.need(n, 7, 'random functions of %s' % cn)
        m = 0
        for f in ctx.ctors(c):
            if len(f['params']) != 1:
                continue
            m += 1
            run = ctx.run(f, c)
            seeded = []
            for ev in run.events('construct', 'stdcall'):
                o = ev.get('path') if ev['k'] == 'construct' else ev.get('obj')
                if o == seq and (ev['k'] == 'construct' or ev['q'].endswith('::seed')):
                    seeded.append(len(ev.get('args') or ()) == 1 and is_arg(ev['args'][0], pv(f, 0)))
                if o == seq and ev['k'] == 'stdcall' and not ev['q'].endswith('::seed'):
                    seeded.append(False)
            ctx.oblige('initial-seed', bool(seeded) and seeded[-1] is True, '%s::%s' % (cn, cn), f['loc'],
                       'the sequence does not start from the seed given on construction')
        ctx.need(m, 1, 'constructors of %s' % cn)


# ------------------------------------------------------------------ timers
def linear(v, scale=1.0):
    """A value in milliseconds as {atom: coefficient}, or None when it is not a linear expression without truncation."""
    kd = v[0]
    if kd == 'c':
        return {1: scale * v[1]} if v[1] else {}
    if kd == 'f':
        try:
            return {1: scale * float(v[1])} if float(v[1]) else {}
        except (TypeError, ValueError):
            return None
    if kd == 'op' and v[1] in ('+', '-'):
        a, b = linear(v[2], scale), linear(v[3], scale if v[1] == '+' else -scale)
        if a is None or b is None:
            return None
        return addl(a, b)
    if kd == '+' and len(v) == 3:
        a, b = linear(v[1], scale), linear(v[2], scale)
        return None if a is None or b is None else addl(a, b)
    if kd == 'cast' and v[1] in ('double', 'long double'):
        return linear(v[2], scale)
    if kd == 'op' and v[1] in ('/', '*') and v[3][0] in ('c', 'f') and float(v[3][1]):
        x = float(v[3][1])
        return linear(v[2], scale / x if v[1] == '/' else scale * x)
    if kd == 'cnt' and isinstance(v[1], tuple) and len(v[1]) == 3:
        n, d, _ = v[1]
        # number of (n/d) seconds -> the quantity itself, whose natural unit is taken as milliseconds
        return quantity(v[2], scale * d / n / 1000.0)
    return {v: scale}


def quantity(v, scale):
    if v[0] == 'durc':
        n, d, f = v[1]
        if f == 'i' and n * 10 ** 6 > d:
            return {v: scale}            # coarser than a microsecond: truncation, a different quantity
        return quantity(v[2], scale)
    if v[0] == 'op' and v[1] in ('+', '-'):
        a, b = quantity(v[2], scale), quantity(v[3], scale if v[1] == '+' else -scale)
        return None if a is None or b is None else addl(a, b)
    if v[0] == 'durn':
        n, d, f = v[1]
        return linear(v[2], scale * 1000.0 * n / d)
    if v[0] == 'epoch':
        return quantity(v[1], scale)
    return {v: scale}


def addl(a, b):
    out = dict(a)
    for x, y in b.items():
        out[x] = out.get(x, 0) + y
    return {x: y for x, y in out.items() if abs(y) > 1e-12}


def is_now(v):
    return v[0] == 'r' and v[1] == 'now'


def lin_eq(v, want):
    """v (milliseconds) equals the linear form want, where the atom 'now' stands for any clock reading of the call"""
    a = linear(v)
    if a is None:
        return False
    b = {}
    for x, y in a.items():
        key = 'now' if isinstance(x, tuple) and is_now(x) else x
        b[key] = b.get(key, 0) + y
    b = {x: y for x, y in b.items() if abs(y) > 1e-9}
    return set(b) == set(want) and all(abs(b[x] - want[x]) < 1e-9 for x in b)


def K01(ctx):
    """timers"""
    tm, pt = inst(ctx, 'Timer'), inst(ctx, 'PausableTimer')
    st_f = [T + (f['name'],) for _, f in ctx.p.all_fields(tm) if f['t'].startswith('std::chrono::time_point') or 'time_point<' in f['t']]
    own = [f for _, f in ctx.p.all_fields(pt)]
    pl_f = [T + (f['name'],) for f in own if unconst(f['t']) == 'bool']
    ac_f = [T + (f['name'],) for f in own if unconst(f['t']) == 'double']
    if len(st_f) != 1 or len(pl_f) != 1 or len(ac_f) != 1:
        raise AnalysisBroken('the timers do not have a start time, a playing flag and a stored time any more')
    S, P, A = st_f[0], pl_f[0], ac_f[0]
    start, playing, acc = k(*S), k(*P), k(*A)
    n = 0
    for f in ctx.methods(tm):
        if f.get('kind') in ('ctor', 'dtor'):
            continue
        run = runc(ctx, f, tm)
        w = 'Timer::' + f['name']
        if f['name'] == 'elapsed':
            n += 1
            post(ctx, 'elapsed', run, lambda kd, st, v: kd == 'return' and lin_eq(v, {'now': 1, start: -1}) and get(st, S) == start,
                 'elapsed is not the time since the last reset, in milliseconds', w)
        elif f['name'] == 'elapsed_ms':
            n += 1
            post(ctx, 'elapsed', run, lambda kd, st, v: kd == 'return' and v[0] == 'cast' and lin_eq(v[2], {'now': 1, start: -1}),
                 'elapsed_ms is not the elapsed time in whole milliseconds', w)
        elif f['name'] == 'reset':
            n += 1
            post(ctx, 'reset', run, lambda kd, st, v: kd == 'return' and is_now(get(st, S)), 'reset does not restart the timer now', w)
    for f in ctx.ctors(tm):
        if not f['params']:
            n += 1
            post(ctx, 'reset', runc(ctx, f, tm), lambda kd, st, v: kd == 'return' and is_now(get(st, S)), 'a new timer does not start now', 'Timer::Timer')
    ctx.need(n, 4, 'operations of Timer')
    n = 0

    def state(st):
        return get(st, P), get(st, A), get(st, S)

    def const_of(v, facts):
        return decide(truth(v), facts)
    for f in ctx.methods(pt):
        if f.get('kind') in ('ctor', 'dtor'):
            continue
        nm = f['name']
        run = runc(ctx, f, pt)
        w = 'PausableTimer::' + nm
        for pl in (True, False):
            fa = [(playing, pl)]
            sfx = ' (%s)' % ('playing' if pl else 'paused')

            def isP(st, want):
                fx = assume_all(st.facts, fa)
                return fx is not None and const_of(get(st, P), fx) is want

            def keeps(st, run_too=True):
                return isP(st, pl) and get(st, A) == acc and (not pl or get(st, S) == start)
            full = {acc: 1, 'now': 1, start: -1} if pl else {acc: 1}
            if nm == 'elapsed':
                post(ctx, 'elapsed', run, lambda kd, st, v: kd == 'return' and lin_eq(v, full) and keeps(st), 'elapsed%s is not the time the timer has been playing' % sfx, w, facts=fa)
            elif nm == 'elapsed_ms':
                post(ctx, 'elapsed', run, lambda kd, st, v: kd == 'return' and v[0] == 'cast' and lin_eq(v[2], full) and keeps(st),
                     'elapsed_ms%s is not the time the timer has been playing' % sfx, w, facts=fa)
            elif nm == 'playing':
                post(ctx, 'playing', run, lambda kd, st, v: kd == 'return' and const_of(v, assume_all(st.facts, fa)) is pl and keeps(st), 'playing() does not tell the state', w, facts=fa)
            elif nm == 'play':
                post(ctx, 'play', run, (lambda kd, st, v: kd == 'return' and keeps(st)) if pl else
                     (lambda kd, st, v: kd == 'return' and isP(st, True) and get(st, A) == acc and is_now(get(st, S))),
                     'play%s does not %s' % (sfx, 'leave a playing timer as it is' if pl else 'resume counting from now on keeping the stored time'), w, facts=fa)
            elif nm == 'pause':
                post(ctx, 'pause', run, (lambda kd, st, v: kd == 'return' and isP(st, False) and lin_eq(get(st, A), {acc: 1, 'now': 1, start: -1})) if pl else
                     (lambda kd, st, v: kd == 'return' and keeps(st)),
                     'pause%s does not %s' % (sfx, 'add the time since the last play to the stored time' if pl else 'leave a paused timer as it is'), w, facts=fa)
            elif nm == 'reset':
                post(ctx, 'reset', run, lambda kd, st, v: kd == 'return' and isP(st, pl) and get(st, A) in (C0, ('f', '0')) and (not pl or is_now(get(st, S))),
                     'reset%s does not restart from zero in the same state' % sfx, w, facts=fa)
            else:
                continue
            n += 1
    for f in ctx.ctors(pt):
        if len(f['params']) != 1:
            continue
        n += 1
        run = runc(ctx, f, pt)
        post(ctx, 'construct', run, lambda kd, st, v: kd == 'return' and get(st, P) == ('p', pv(f, 0)) and get(st, A) == C0 and is_now(get(st, S)),
             'a new timer does not start at zero, now, in the state asked for', 'PausableTimer::PausableTimer')
    ctx.need(n, 11, 'operations of PausableTimer')
