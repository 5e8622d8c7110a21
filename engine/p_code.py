"""C01: return codes.  X01: exceptions."""
import re

from dom import decide, mk_cmp, truth
from facts import AnalysisBroken, strip_t
from p_misc import C0, T, const, get, inst, k, post, pv, result, runc, table, unconst
from p_init import NS

RC = NS + 'ReturnCode'
# DDS return code (value fixed by the DDS specification) -> name of the value of the utils
DDS = {0: 'OK', 1: 'ERROR', 2: 'ERROR', 3: 'ERROR', 4: 'PRECONDITION_NOT_MET', 5: 'ERROR', 6: 'NOT_ENABLED', 7: 'ERROR', 8: 'ERROR', 9: 'ERROR', 10: 'ERROR', 11: 'NO_DATA', 12: 'ERROR'}


def enum_values(p, q):
    e = p.enums.get(q)
    if e is None:
        raise AnalysisBroken('enumeration %s not found' % q)
    return {x['n'].split('::')[-1]: x['v'] for x in e['e']}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def C01(ctx):
    p = ctx.p
    c = inst(ctx, 'ReturnCode')
    vals = {n.replace('RETCODE_', ''): v for n, v in enum_values(p, RC + '::ReturnCodeValue').items()}
    ctx.need(len(vals), 6, 'return codes')
    ctx.oblige('codes', len(set(vals.values())) == len(vals), RC, p.records[c]['loc'], 'two return codes have the same value')
    fds = [f for _, f in p.all_fields(c) if not f.get('static')]
    if len(fds) != 1:
        raise AnalysisBroken('ReturnCode does not hold exactly one value any more')
    F = fds[0]['name']
    V = T + (F,)
    n = 0
    for f in ctx.ctors(c):
        pt = [unconst(x['t'].replace('&', '').strip()) for x in f['params']]
        where = 'ReturnCode::ReturnCode(%s)' % ', '.join(pt)
        if not pt:
            n += 1
            post(ctx, 'default', runc(ctx, f, c), lambda kd, st, v: kd == 'return' and get(st, V) == const(vals['OK']), 'a return code is not RETCODE_OK by default', where, f['loc'])
        elif pt[0].endswith('ReturnCodeValue'):
            n += 1
            P = k('P', pv(f, 0))
            post(ctx, 'copy', runc(ctx, f, c), lambda kd, st, v: kd == 'return' and strip(get(st, V)) in (('fld', ('P', pv(f, 0)), '0'), P, ('p', pv(f, 0))),
                 'a return code does not hold the value given', where, f['loc'])
        elif pt[0] in ('int', 'eprosima::fastdds::dds::ReturnCode_t', 'long'):
            for code, want in sorted(DDS.items()) + [(13, 'UNKNOWN'), (14, 'UNKNOWN'), (1000, 'UNKNOWN'), (-1, 'UNKNOWN')]:
                n += 1
                if want not in vals:
                    raise AnalysisBroken('RETCODE_%s does not exist' % want)

                def setup(it, st):
                    st.store[('P', pv(f, 0))] = const(code)
                run = runc(ctx, f, c, setup=setup, key='c%d' % code)
                post(ctx, 'conversion', run, lambda kd, st, v: kd == 'return' and get(st, V) == const(vals[want]),
                     'the DDS return code %d is not converted into RETCODE_%s' % (code, want), where, f['loc'])
    ctx.need(n, 10, 'conversions into return codes')
    # ---- comparisons
    me = k(*V)
    ops = {}
    for f in p.functions.values():
        if f.get('body') is None or not f['name'].startswith('operator'):
            continue
        pt = [unconst(x['t'].replace('&', '').strip()) for x in f['params']]
        member = f['q'].startswith(RC + '::')
        if not member and not (f['q'].startswith(NS + 'operator') and any(t == RC for t in pt)):
            continue
        nm = f['name']

        def val(i):
            return k('P', pv(f, i), F) if pt[i] == RC else k('P', pv(f, i))
        if member:
            a, rest = me, [val(i) for i in range(len(pt))]
        else:
            if len(pt) != 2:
                continue
            a, rest = val(0), [val(1)]
        where = '%s(%s)' % (f['q'].replace(NS, ''), ', '.join(pt))
        run = None
        if nm in ('operator==', 'operator!=') and len(rest) == 1:
            run = runc(ctx, f, c if member else None)
            eq = nm == 'operator=='
            table(ctx, 'compare', run, [mk_cmp('==', a, rest[0])], lambda s: s == eq, '%s is not %s of the values' % (nm, 'equality' if eq else 'inequality'), where, f['loc'], got=same_width)
        elif nm == 'operator<' and len(rest) == 1:
            run = runc(ctx, f, c if member else None)
            table(ctx, 'compare', run, [mk_cmp('<', a, rest[0]), mk_cmp('==', a, rest[0])], lambda lt, same: None if lt and same else lt, 'operator< is not the order of the values', where, f['loc'])
        elif nm == 'operator!' and member:
            run = runc(ctx, f, c)
            table(ctx, 'failure', run, [mk_cmp('==', a, const(vals['OK']))], lambda okk: not okk, 'operator! is not "different from RETCODE_OK"', where, f['loc'], got=same_width)
        elif nm == 'operator()' and member:
            run = runc(ctx, f, c)
            post(ctx, 'value', run, lambda kd, st, v: kd == 'return' and strip(result(st, v)) == a, 'operator() does not give the value', where, f['loc'])
        if run is not None:
            ops[(nm, tuple(pt))] = 1
    ctx.need(len(ops), 6, 'operators of ReturnCode')
    # ---- names
    g = [v for u, v in p.globals.items() if v['q'].startswith(RC + '::') and 'map' in v['t'] and v.get('init')]
    ctx.need(len(g), 1, 'tables of names of return codes')
    for v in g:
        pairs = []
        for x in walk(v['init']):
            if x.get('k') == 'CXXConstructExpr' and (x.get('f') or {}).get('cq') == 'std::pair' and len(x.get('a') or []) == 2:
                en = [y['en'].replace('RETCODE_', '') for y in walk(x['a'][0]) if y.get('en')]
                s = [y['v'] for y in walk(x['a'][1]) if y.get('k') == 'StringLiteral']
                if len(en) == 1 and len(s) == 1:
                    pairs.append((en[0], s[0]))
        ctx.need(len(pairs), 3, 'names in the table of return codes')
        for nme in sorted(vals):
            ss = [s for e, s in pairs if e == nme]
            ctx.oblige('names', len(ss) == 1, RC, v['loc'], 'RETCODE_%s has %d names: printing it %s' % (nme, len(ss), 'reads past the end of the table' if not ss else 'is ambiguous'))
        ctx.oblige('names', len({s for _, s in pairs}) == len(pairs), RC, v['loc'], 'two return codes are printed with the same name')
        for e, s in pairs:
            ctx.oblige('names', s.lower().replace('_', '') == e.lower().replace('_', ''), RC, v['loc'], 'RETCODE_%s is printed as %s' % (e, s))


def plain(v):
    # a conversion between integers of the same width maps different values to different values
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'op' and v[1] in ('signed', 'unsigned', 'cast'):
            return plain(v[2])
        if v and v[0] == '==' and len(v) == 3:
            return mk_cmp('==', plain(v[1]), plain(v[2]))
        if v and v[0] == 'not':
            return ('not', plain(v[1]))
    return v


def same_width(kd, st, v, f):
    return decide(plain(truth(result(st, v))), f) if v is not None else None


def strip(v):
    while isinstance(v, tuple) and v and v[0] == 'op' and v[1] in ('cast', 'narrow') and len(v) == 3:
        v = v[2]
    return v


# ------------------------------------------------------------------ exceptions
STDEXC = re.compile(r'^c:@N@std@(S@|N@\w+@S@)(\w*exception|(runtime|logic|domain|length|range|overflow|underflow|system|filesystem|regex|future)_error|invalid_argument|out_of_range|bad_\w+)$')


def X01(ctx):
    p = ctx.p

    def is_exc(u):
        if u and STDEXC.search(u):
            return True
        r = p.records.get(u)
        if r is None:
            return False
        return r['q'] in ('std::exception', 'std::runtime_error', 'std::logic_error') or any(is_exc(b['u'] if isinstance(b, dict) else b) for b in r.get('bases', []))
    nc = 0
    made = 0
    for f in sorted(p.functions.values(), key=lambda f: f['u']):
        if f.get('body') is None or not f['q'].startswith('eprosima::'):
            continue
        nc += 1
        for x in walk(f['body']):
            if x.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and is_exc(x.get('cls')):
                made += 1
        for x in walk(f['body']):
            kids = list(x.get('a') or []) if x.get('k') == 'CompoundStmt' else [x[y] for y in ('then', 'else', 't2', 'f2') if isinstance(x.get(y), dict)] if x.get('k') == 'IfStmt' else []
            for s in kids:
                y = s
                while isinstance(y, dict) and y.get('k') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'Cast', 'ParenExpr') and y.get('a'):
                    y = y['a'][0]
                if isinstance(y, dict) and y.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and is_exc(y.get('cls')):
                    ctx.oblige('thrown', False, ctx.fname(f), y['l'], 'an exception is created and never thrown')
        for x in walk(f['body']):
            if x.get('k') == 'VarDecl' or (x.get('k') is None and x.get('id') and x.get('init')):
                if isinstance(x.get('init'), dict) and is_exc(x['init'].get('cls')) and not any(
                        y.get('k') == 'DeclRefExpr' and y.get('id') == x.get('id') for y in walk(f['body'])):
                    ctx.oblige('thrown', False, ctx.fname(f), x.get('l') or x['init'].get('l') or f['loc'], 'an exception is created and never thrown')
        ctx.functions.add(f['u'])
    ctx.need(made, 4, 'exceptions created')
    for _ in range(made):
        ctx.oblige('thrown', True, 'exceptions created', 'cpp_utils:0', '')
    # ---- noexcept
    n = 0
    for f in sorted(p.functions.values(), key=lambda f: f['u']):
        if f.get('body') is None or not f['q'].startswith(NS) or not f.get('noexcept') or f.get('defaulted') or '(lambda' in f['q']:
            continue
        if f.get('kind') == 'dtor' or f['q'].split('::')[-1] in SLOW:
            continue
        o = p.method_owner(f['u'])
        cls = o['u'] if o else None
        mine = {strip_t(p.records[x]['q']) for x in [cls] + list(p.bases(cls))} if cls else set()

        def other(fn):
            # what another class throws when its precondition is broken is the business of that class
            w = p.method_owner(fn['u'])
            return w is not None and strip_t(w['q']) not in mine
        run = ctx.run(f, cls, key='noexcept', opaque=other, handlers=True)
        n += 1
        bad = [ev for ev in run.events('terminate')]
        ctx.oblige('noexcept', not bad, ctx.fname(f), f['loc'], 'an exception is thrown out of a function declared noexcept: the process is terminated')
    ctx.need(n, 60, 'functions declared noexcept')


SLOW = ('stdin_listener_thread_routine_',)
