"""Builders, singletons, macros and constant tables."""
import dom
from dom import C0, C1, NULL, const, decide, mk_cmp, symbols, truth
from facts import AnalysisBroken
from interp import fmt_path, unconst
from lib import NS, assume_all, monitor, path_to, short_val
from p_misc import RET, T, designates, func, get, inst, k, post, pv, result, runc, table


def ptype(f, i):
    return unconst(f['params'][i]['t'].replace('&', '').strip())


def is_fld(v, path):
    return v is not None and v[0] == 'fld' and v[1] == tuple(path)


def found_fact(facts, cont, key_ok):
    """None/True/False: what the facts say about find(key) on that container"""
    for a, pol in facts:
        if a[0] == '==' and len(a) == 3:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'it' and y[0] == 'it' and x[1] == cont == y[1] and y[2] == 'end' and \
                        isinstance(x[2], tuple) and x[2][0] == 'find' and isinstance(x[2][1], tuple) and len(x[2][1]) == 1 and key_ok(x[2][1][0]):
                    return not pol
    return None


# ------------------------------------------------------------------ Builder
def index_rule(ctx, run, OUT, field, where, fn):
    """value -> set of keys is turned into key -> value completely, and is what the object holds in the end"""
    IN = OUT + ('[]', 'second')
    bad = []

    def ok_pair(key, val):
        return is_fld(key, IN + ('[]',)) and is_fld(val, OUT + ('[]', 'first'))

    def step(ms, ev):
        # ms: (outer: None/'open'/'done', inner: None/'open'/'done', stored for the current key, container, something stored, key of a pending operator[])
        outer, inner, stored, cont, some, pend = ms
        kd = ev['k']
        if kd in ('iter', 'iterend'):
            p = ev['path']
            if p == IN or p == OUT:
                if pend or inner == 'open' and not stored:
                    return [('!', 'indexed', 'skips a key of a value', (outer, 'done', True, cont, some, None))]
            if p == IN:
                return [(outer, 'open' if kd == 'iter' else 'done', False, cont, some, None)]
            if p == OUT:
                out = []
                if outer == 'open' and inner != 'done':
                    out.append(('!', 'indexed', 'does not go through all the keys of a value', (outer, 'done', False, cont, some, None)))
                return out + [('open' if kd == 'iter' else 'done', None, False, cont, some, None)]
        if kd == 'cmut' and ev['path'] != OUT and ev['path'] != IN:
            a = ev['args']
            if cont is None and ev['name'] not in ('clear', 'swap') and ev['cval'] != ('emptyc',):
                return [('!', 'indexed', 'keeps associations that were there before', (outer, inner, stored, ev['path'], some, pend))]
            if ev['name'] == 'operator[]' and len(a) == 1:
                return [(outer, inner, stored, cont or ev['path'], some, a[0])]
            if ev['name'] in ('emplace', 'insert_or_assign', 'try_emplace') and len(a) == 2:
                if not ok_pair(*a):
                    return [('!', 'indexed', 'stores something else than the key with its value', ms)]
                return [(outer, inner, True, cont or ev['path'], True, None)]
            if ev['name'] in ('emplace', 'insert', 'emplace_hint') and a:
                v = a[-1]
                if v[0] == 'pair' and len(v) == 3 and ok_pair(v[1], v[2]):
                    return [(outer, inner, True, cont or ev['path'], True, None)]
            if ev['name'] == 'clear':
                return [(outer, inner, stored, cont, some, pend)] if outer is None else [('!', 'indexed', 'drops what it has stored', ms)]
            if ev['name'] in ('erase', 'extract'):
                return [('!', 'indexed', 'drops what it has stored', ms)]
        if kd == 'ewrite' and pend is not None and ev['cont'] == cont:
            if not ok_pair(pend, ev['val']):
                return [('!', 'indexed', 'stores something else than the key with its value', (outer, inner, True, cont, True, None))]
            return [(outer, inner, True, cont, True, None)]
        return None

    n = [0]

    def final(ms, kind, st, val):
        outer, inner, stored, cont, some, pend = ms
        n[0] += 1
        if kind != 'return':
            return ('indexed', 'ends with an exception')
        if outer == 'open' or inner == 'open' or outer is None and decide(mk_cmp('==', ('size', ('fld', OUT, 'k' if len(OUT) == 2 else '0')), C0), st.facts) is not True:
            return ('indexed', 'stops before all the keys of all values have been stored')
        v = get(st, T + (field,))
        if v[0] != 'mut' if some else v != ('emptyc',):
            return ('indexed', 'the values held in the end are not those of the argument')

    for ru, msg, ev, tr in monitor(ctx, run, (None, None, False, None, False, None), step, final=final):
        bad.append(1)
        ctx.oblige(ru, False, where, ev['l'], msg, tr)
    ctx.need(n[0], 1, 'results of the indexing')
    if not bad:
        ctx.oblige('indexed', True, where, fn['loc'], '')


def lookup(ctx, f, c, field, where):
    """find / string_to_enumeration: with output argument or by value"""
    run = runc(ctx, f, c)
    V = T + (field,)
    key = pv(f, 0)
    key_ok = lambda x: is_fld(x, ('P', key)) or x == ('p', key)
    bad = None
    n = 0
    for node, kind, st, val in run.g.exits:
        fd = found_fact(st.facts, V, key_ok)
        n += 1
        if st.store.get(V) not in (None, k(*V)):
            bad = bad or (node, 'changes the values')
        if fd is None:
            bad = bad or (node, 'the answer does not depend on whether the key is there')
        elif len(f['params']) == 2:
            out = get(st, ('P', pv(f, 1)))
            if kind != 'return' or decide(truth(val), st.facts) is not fd:
                bad = bad or (node, 'the answer is not whether the key is there')
            elif fd and not is_fld(out, V + ('[]', 'second')):
                bad = bad or (node, 'the value given is not that of the key')
            elif not fd and ('P', pv(f, 1)) in st.store and out != k('P', pv(f, 1)):
                bad = bad or (node, 'changes the output although the key is not there')
        else:
            if fd and not (kind == 'return' and is_fld(result(st, val), V + ('[]', 'second'))):
                bad = bad or (node, 'does not return the value of a key that is there')
            if not fd and not (kind == 'throw' and st.exc and str(st.exc[1]).endswith('ValueNotAllowedException')):
                bad = bad or (node, 'does not throw ValueNotAllowedException for a key that is not there')
    ctx.need(n, 2, 'results of a look-up')
    ctx.oblige('lookup', bad is None, where, f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad else ())


def B01(ctx):
    """builders"""
    n = 0
    cs = [(r['u'], 'Builder') for r in ctx.cls('Builder')] + [(r['u'], 'EnumBuilder') for r in ctx.cls('EnumBuilder')]
    ctx.need(len(cs), 2, 'builder classes')
    for c, nm in cs:
        fs = [f for _, f in ctx.p.all_fields(c)]
        if len(fs) != 1 or not fs[0]['t'].startswith('std::map<'):
            raise AnalysisBroken('a builder does not consist of one map any more')
        field = fs[0]['name']
        for f in ctx.methods(c) + ctx.ctors(c):
            where = '%s::%s' % (nm, f['name'])
            if f.get('kind') == 'dtor' or f.get('implicit'):
                continue
            ctor = f.get('kind') == 'ctor'
            if (ctor or f['name'] == 'refactor_values') and len(f['params']) == 1 and ptype(f, 0).startswith('std::map<'):
                n += 1
                p = pv(f, 0)
                P = ('P', p)
                if ctor and not f['params'][0]['n']:
                    # inherited constructor
                    base = [b for b in ctx.ctors(inst(ctx, 'Builder')) if len(b['params']) == 1 and ptype(b, 0) == ptype(f, 0)]
                    P = ('P', 'inh', pv(base[0], 0)) if base else P
                run = runc(ctx, f, c)
                if 'std::set<' in ptype(f, 0):
                    index_rule(ctx, run, P, field, where, f)
                else:
                    post(ctx, 'taken', run, lambda kd, st, v: kd == 'return' and is_fld(get(st, T + (field,)), P),
                         'the values held in the end are not those of the argument', where)
            elif f['name'] in ('find', 'string_to_enumeration'):
                n += 1
                lookup(ctx, f, c, field, where)
    ctx.need(n, 7, 'operations of builders')


# ------------------------------------------------------------------ singletons
def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def members_of(ctx, c):
    """static data members of a class"""
    return {u: g for u, g in ctx.p.globals.items() if u.startswith('g:' + c + '@') and '@' not in u[len('g:' + c) + 1:]}


def S01(ctx):
    """singletons"""
    n = 0
    for r in ctx.cls('Singleton'):
        c = r['u']
        where = 'Singleton'
        stat = set()
        for f in ctx.methods(c):
            if f['name'] not in ('get_instance', 'get_shared_instance'):
                continue
            n += 1
            run = ctx.run(f, c)
            w = [ev for ev in run.events('write', 'xchg', 'atomic_write', 'drop_ptr') if ev['path'][0] == 'g']
            ctx.oblige('never-replaced', not w, '%s::%s' % (where, f['name']), w[0]['l'] if w else f['loc'], 'a getter changes which object is the instance')
            ok = bool(run.g.exits)
            for node, kind, st, val in run.g.exits:
                v = result(st, val)
                if v is not None and v[0] == 'ref' and v[1][0] == 'g':
                    stat.add(v[1])       # the object itself is the static
                elif v is not None and v[0] == 'fld' and v[1][0] == 'g':
                    stat.add(v[1])
                else:
                    # a constant static: its value is known
                    own = {ev['path'] for ev in run.events('staticinit') if is_new(v) and get(st, ev['path']) == v}
                    stat |= own
                    ok = ok and len(own) == 1
                ok = ok and kind == 'return'
            ctx.oblige('same-instance', ok, '%s::%s' % (where, f['name']), f['loc'], 'a getter does not give the object of one static variable')
            # the variable: one for the whole process, initialised with a new object by its declaration
            for p in sorted(stat):
                decl = None
                for u in {ev.get('u') for ev in run.events('enter')} | {f['u']}:
                    fn = ctx.p.functions.get(u)
                    for d in walk((fn or {}).get('body') or {}):
                        if d.get('id') == p[1] and 'init' in d and d.get('static'):
                            decl = d
                decl = decl or ctx.p.globals.get(p[1])
                if decl is None:
                    continue
                n += 1
                made = any(x.get('k') == 'CXXNewExpr' or x.get('k') == 'CallExpr' and 'make_shared' in str((x.get('f') or {}).get('q')) for x in walk(decl.get('init') or {}))
                ptr = '_ptr<' in decl['t'] or decl['t'].endswith('*')
                ctx.oblige('one-instance', not decl.get('tls') and (made or not ptr), where, decl.get('l') or decl.get('loc') or f['loc'],
                           'the instance is not one object for the whole process, created when it is first needed')
        ctx.oblige('same-instance', len(stat) == 1, where, r['loc'], 'the getters do not give the same object')
    # initialised at static initialisation time
    for r in ctx.cls('InitializableSingleton'):
        c = r['u']
        mem = {('g', u): g for u, g in members_of(ctx, c).items() if '_ptr<' in g['t']}
        if len(mem) != 1:
            raise AnalysisBroken('InitializableSingleton does not have one static pointer any more')
        PTR, g = list(mem.items())[0]
        ctx.oblige('one-instance', not g.get('tls'), 'InitializableSingleton', g['loc'], 'there is one instance per thread')
        fs = ctx.methods(c) + [f for f in ctx.p.functions.values() if f['name'] == 'initialize' and f['u'].startswith(c + '@') and f.get('body') is not None]
        for f in {f['u']: f for f in fs}.values():
            where = 'InitializableSingleton::%s' % f['name']
            if f['name'] == 'initialize':
                n += 1
                run = runc(ctx, f, c)
                post(ctx, 'initialize', run, lambda kd, st, v: kd == 'return' and decide(truth(v), st.facts) is True and is_new(get(st, PTR)),
                     'does not create the instance and return true', where)
                args_used(ctx, run, f, where)
            elif f['name'] in ('get_instance', 'get_shared_instance'):
                n += 1
                run = runc(ctx, f, c, extra=(PTR,))
                post(ctx, 'same-instance', run, lambda kd, st, v: kd == 'return' and result(st, v) == k(*PTR) and get(st, PTR) == k(*PTR),
                     'does not give the instance as it is', where)
    # initialised and read from any thread
    for r in ctx.cls('SafeInitializableSingleton'):
        c = r['u']
        mem = {('g', u): g for u, g in members_of(ctx, c).items() if '_ptr<' in g['t']}
        if len(mem) != 1:
            raise AnalysisBroken('SafeInitializableSingleton does not have one static pointer any more')
        PTR, g = list(mem.items())[0]
        ctx.oblige('one-instance', not g.get('tls'), 'SafeInitializableSingleton', g['loc'], 'there is one instance per thread')
        fs = ctx.methods(c) + [f for f in ctx.p.functions.values() if f['name'] == 'initialize' and f['u'].startswith(c + '@') and f.get('body') is not None]
        fs = [f for f in {f['u']: f for f in fs}.values() if f['name'] in ('initialize', 'get_instance', 'get_shared_instance')]
        held = None
        runs = []
        for f in fs:
            run = ctx.run(f, c)
            runs.append((f, run))
            for ev in run.events('read', 'write', 'xchg', 'drop_ptr', 'cread', 'cmut'):
                if ev.get('path') == PTR:
                    ms = {x[0] for x in ev['locks'] if x[0][0] == 'g' and not ctx.p.globals.get(x[0][1], {}).get('tls')}
                    held = ms if held is None else held & ms
                    if not ms:
                        ctx.oblige('guarded', False, 'SafeInitializableSingleton::%s' % f['name'], ev['l'], 'uses the pointer to the instance without holding a lock')
        ctx.oblige('guarded', bool(held), 'SafeInitializableSingleton', r['loc'], 'there is no lock held at every use of the pointer to the instance')
        for f, run in runs:
            n += 1
            where = 'SafeInitializableSingleton::%s' % f['name']
            bad = None
            wr = [ev for ev in run.events('write') if ev['path'] == PTR and not is_new(ev['val'])]
            for ev in wr:
                bad = bad or (None, 'replaces the instance by something else than a new object')
            for node, kind, st, val in run.g.exits:
                if kind != 'return':
                    bad = bad or (node, 'ends with an exception')
                    continue
                cur = get(st, PTR)
                seen = ('fld', PTR, st.hv)
                created = is_new(cur)
                null = decide(mk_cmp('==', seen, NULL), st.facts)
                if created and null is not True:
                    bad = bad or (node, 'creates an instance without having seen, in the same locked section, that there is none')
                if not created and cur != seen:
                    bad = bad or (node, 'changes the instance')
                if f['name'] == 'initialize':
                    if decide(truth(val), st.facts) is not created:
                        bad = bad or (node, 'does not return whether it created the instance')
                    if not created and null is not False:
                        bad = bad or (node, 'does not create an instance although there is none')
                    continue
                if result(st, val) != cur:
                    bad = bad or (node, 'does not return the instance')
                want = pv(f, 0) if f['params'] else None
                for asked in (True, False):
                    fa = st.facts if want is None else assume_all(st.facts, [(('p', want), asked)])
                    if fa is None:
                        continue
                    if asked and not created and decide(mk_cmp('==', seen, NULL), fa) is not False:
                        bad = bad or (node, 'may return null although creation is asked for')
                    if not asked and created and want is not None:
                        bad = bad or (node, 'creates an instance although it is not asked for')
            ctx.oblige('once', bad is None, where, f['loc'], bad[1] if bad else '', path_to(ctx, run, bad[0]) if bad and bad[0] is not None else ())
            if f['name'] == 'initialize':
                args_used(ctx, run, f, where)
    ctx.need(n, 8, 'operations of singletons')


def is_new(v):
    return v is not None and v[0] == 'ref' and v[1][0] == 'h'


def args_used(ctx, run, f, where):
    """the object is constructed from the arguments of initialize"""
    ps = {p['n'] or 'arg%d' % i for i, p in enumerate(f['params'])}
    if not ps:
        return
    cons = [ev for ev in run.events('construct', 'opaque_construct', 'call') if ev.get('path') and ev['path'][0] == 'h']
    if not cons:
        return
    ok = all(any('%s' % p in str(ev.get('args')) for p in ps) for ev in cons)
    ctx.oblige('initialize', ok, where, f['loc'], 'the instance is not constructed from the arguments given')
