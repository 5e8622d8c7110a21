"""V01: every object starts with every scalar member given a value, whichever constructor is used."""
import re

from facts import AnalysisBroken
from p_misc import T

NS = 'eprosima::utils::'
SCALAR = re.compile(r'^(const )?(bool|char|(signed |unsigned )?(char|short|int|long|long long)|unsigned|float|double|wchar_t)( int)?$')


def is_scalar(p, t):
    t = t.replace('volatile ', '').strip()
    if t.endswith('&'):
        return False
    if t.endswith('*') or t.endswith('*const') or SCALAR.match(t):
        return True
    b = t[6:] if t.startswith('const ') else t
    return any(e == b or e.endswith('::' + b) for e in p.enums) if p.enums else False


def atomic_of(t):
    m = re.match(r'^std::atomic<(.*)>$', t.replace('const ', '').strip())
    if m:
        return m.group(1)
    return {'std::atomic_bool': 'bool', 'std::atomic_int': 'int', 'std::atomic_uint': 'unsigned int'}.get(t.strip())


def V01(ctx):
    p = ctx.p
    n = 0
    cls = 0
    for u, r in sorted(p.records.items()):
        if not r['q'].startswith(NS) or '(lambda' in r['q'] or not r.get('repo'):
            continue
        own = []
        for _, f in p.all_fields(u):
            t = f['t']
            if f.get('static'):
                continue
            if is_scalar(p, t) or atomic_of(t):
                own.append(f)
        if not own:
            continue
        cls += 1
        for c in ctx.ctors(u):
            # copies and moves take the value of the other object: only those written by hand are looked at
            mark = {}

            def setup(it, st):
                for f in own:
                    q = T + (f['name'],)
                    mark[q] = f
                    st.store[q] = ('uninit', q)
            run = ctx.run(c, u, key='init', setup=setup, confined=(T,))
            for node, kind, st, val in run.g.exits:
                if kind != 'return':
                    continue
                for q, f in mark.items():
                    v = st.store.get(q)
                    n += 1
                    ctx.oblige('init', v is None or v != ('uninit', q), run.label, c['loc'], 'the member %s has no value after this constructor' % f['name'])
    ctx.need(cls, 6, 'classes with scalar members')
    ctx.need(n, 12, 'members after constructors')
