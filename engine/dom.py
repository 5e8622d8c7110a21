"""Abstract values, atoms and the predicate domain (constants, order/zone facts, boolean facts)."""

C0 = ('c', 0)
C1 = ('c', 1)
NULL = ('null',)
TOP = ('top',)
VOID = ('void',)


def const(n):
    return ('c', int(n))


def is_const(v):
    return v[0] == 'c'


MAXDEPTH = 6


def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


_symcache = {}


def symbols(v):
    """Leaf symbols ('fld'|'p'|'r'|'w'...) mentioned in a value."""
    if not isinstance(v, tuple):
        return frozenset()
    r = _symcache.get(v)
    if r is not None:
        return r
    if v and v[0] in ('fld', 'p', 'r', 'old', 'uninit', 'wp', 'cv'):
        s = frozenset([v])
        if v[0] == 'r':
            for x in v[1:]:
                if isinstance(x, tuple):
                    s |= symbols(x)
        r = s
    else:
        s = frozenset()
        for x in v:
            if isinstance(x, tuple):
                s |= symbols(x)
        r = s
    if len(_symcache) > 200000:
        _symcache.clear()
    _symcache[v] = r
    return r


def subst(v, f):
    """Replace leaf symbols by f(symbol) (None = keep)."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ('fld', 'p', 'r', 'old', 'uninit', 'wp'):
        n = f(v)
        if n is not None:
            return n
        if v[0] != 'r':
            return v
    return tuple(subst(x, f) if isinstance(x, tuple) else x for x in v)


def lin(v):
    """(base, offset) of an integer-like value."""
    if v[0] == 'c':
        return (None, v[1])
    if v[0] == '+' and v[2][0] == 'c':
        b, o = lin(v[1])
        return (b, o + v[2][1])
    return (v, 0)


def add(a, n):
    b, o = lin(a)
    o += n
    if b is None:
        return ('c', o)
    if o == 0:
        return b
    return ('+', b, ('c', o))


UNSIGNED = set()


def mk_cmp(op, a, b):
    """Canonical (atom, polarity) of a comparison, or a constant ('c', 0/1)."""
    if op in ('>', '<='):
        a, b = b, a
        op = {'>': '<', '<=': '>='}[op]
    if op == '!=':
        r = mk_cmp('==', a, b)
        return neg(r)
    if op == '>=':
        r = mk_cmp('<', a, b)
        return neg(r)
    if op == '==':
        if a == b:
            return C1
        if a[0] == 'c' and b[0] == 'c':
            return const(a[1] == b[1])
        if a[0] == 's' and b[0] == 's':
            return const(a[1] == b[1])
        if a[0] == 'null' and b[0] in ('ref', 'clos', 'bind', 's', 'fnp') or b[0] == 'null' and a[0] in ('ref', 'clos', 'bind', 's', 'fnp'):
            return C0
        if a[0] == 'ref' and b[0] == 'ref' and a[1] != b[1] and _distinct(a[1], b[1]):
            return C0
        # boolean compared with a constant
        if b[0] == 'c' and a[0] in ('not', '==', '<'):
            return a if b[1] == 1 else neg(a)
        if a[0] == 'c' and b[0] in ('not', '==', '<'):
            return b if a[1] == 1 else neg(b)
        la, lb = lin(a), lin(b)
        if la[0] is not None and la[0] == lb[0]:
            return const(la[1] == lb[1])
        if la[1] and lb[0] is None:
            a, b = la[0], ('c', lb[1] - la[1])
        elif lb[1] and la[0] is None:
            a, b = lb[0], ('c', la[1] - lb[1])
        if repr(b) < repr(a):
            a, b = b, a
        return ('==', a, b)
    if op == '<':
        if a == b:
            return C0
        if a[0] == 'c' and b[0] == 'c':
            return const(a[1] < b[1])
        la, lb = lin(a), lin(b)
        if la[0] is not None and la[0] == lb[0]:
            return const(la[1] < lb[1])
        return ('<', a, b)
    return TOP


def _distinct(p, q):
    # locals and fields of one object are distinct; summary elements and unknown roots may alias
    for x in (p, q):
        if '[]' in x or '*' in x or (x and x[0] in ('?',)):
            return False
    return p[0] == q[0] or {p[0], q[0]} <= {'l', 't', 'this', 'g'}


def neg(v):
    if v[0] == 'c':
        return const(not v[1])
    if v[0] == 'not':
        return v[1]
    if v == TOP:
        return TOP
    return ('not', v)


def truth(v):
    """Condition value -> canonical boolean value."""
    t = v[0]
    if t == 'c':
        return const(v[1] != 0)
    if t in ('ref', 'clos', 'bind', 'fnp', 's'):
        return C1
    if t in ('null', 'nofn', 'emptyc'):
        return C0
    if t in ('not', '==', '<', 'b'):
        return v
    return v


def atom_of(cond):
    """(atom, polarity) of a canonical boolean."""
    pol = True
    while cond[0] == 'not':
        pol = not pol
        cond = cond[1]
    return cond, pol


def _num(v):
    b, o = lin(v)
    return b, o


def consistent(facts):
    """facts: iterable of (atom, polarity).  Small zone (difference bounds) + boolean consistency check."""
    pol = {}
    for a, p in facts:
        if pol.get(a, p) != p:
            return False
        pol[a] = p
    # difference constraints x - y <= c over nodes; node None = zero
    edges = {}
    nodes = {None}

    def le(x, y, c):
        # x - y <= c
        nodes.add(x)
        nodes.add(y)
        k = (y, x)
        if k not in edges or edges[k] > c:
            edges[k] = c
    diseq = []
    have_cmp = False
    for a, p in pol.items():
        if a[0] == '<':
            have_cmp = True
            (x, cx), (y, cy) = _num(a[1]), _num(a[2])
            if p:
                le(x, y, cy - cx - 1)
            else:
                le(y, x, cx - cy)
        elif a[0] == '==':
            (x, cx), (y, cy) = _num(a[1]), _num(a[2])
            have_cmp = True
            if p:
                le(x, y, cy - cx)
                le(y, x, cx - cy)
            else:
                diseq.append((x, y, cy - cx))
    if not have_cmp:
        return True
    for n in list(nodes):
        if n is not None and is_unsigned(n):
            le(None, n, 0)
    # a value whose truth is known as an atom of its own is a 0/1 or nonzero value
    for a, p in pol.items():
        if a in nodes:
            if not p:
                le(a, None, 0)
                le(None, a, 0)
            else:
                diseq.append((a, None, 0))
    if len(nodes) < 2:
        return True
    dist = {}
    ns = list(nodes)
    INF = float('inf')
    for i in ns:
        for j in ns:
            dist[i, j] = 0 if i == j else edges.get((i, j), INF)

    def close():
        for k in ns:
            for i in ns:
                dik = dist[i, k]
                if dik == INF:
                    continue
                for j in ns:
                    d = dik + dist[k, j]
                    if d < dist[i, j]:
                        dist[i, j] = d
        return all(dist[i, i] >= 0 for i in ns)
    if not close():
        return False
    # disequalities tighten bounds on integers (x != y+c with x <= y+c gives x < y+c)
    for _ in range(3):
        changed = False
        for x, y, c in diseq:
            # x - y != c ; dist[y,x] bounds x-y from above, -dist[x,y] from below
            if x not in nodes or y not in nodes:
                continue
            if dist[y, x] == c and -dist[x, y] == c:
                return False
            if dist[y, x] == c:
                dist[y, x] = c - 1
                changed = True
            if dist[x, y] == -c:
                dist[x, y] = -c - 1
                changed = True
        if not changed:
            break
        if not close():
            return False
    # distinct constants equal to the same symbol are handled by the closure
    return True


def is_unsigned(n):
    if n[0] in ('size',):
        return True
    return n in UNSIGNED or any(s in UNSIGNED for s in symbols(n)) and n[0] in ('fld', 'p', 'r', 'old', 'wp')


_dcache = {}


def decide(cond, facts):
    """True / False / None."""
    cond = truth(cond)
    if cond[0] == 'c':
        return bool(cond[1])
    if cond == TOP:
        return None
    a, p = atom_of(cond)
    k = (a, facts)
    r = _dcache.get(k, 0)
    if r == 0:
        syms = symbols(a)
        if (a, True) in facts:
            r = True
        elif (a, False) in facts:
            r = False
        else:
            rel = relevant(facts, a)
            t = consistent(list(rel) + [(a, True)])
            f = consistent(list(rel) + [(a, False)])
            if t and not f:
                r = True
            elif f and not t:
                r = False
            elif not t and not f:
                r = 'dead'
            else:
                r = None
        if len(_dcache) > 200000:
            _dcache.clear()
        _dcache[k] = r
    if r is None or r == 'dead':
        return r
    return r if p else (not r)


def relevant(facts, a):
    """facts connected to atom a through shared terms (keeps the zones small)."""
    terms = set(_terms(a))
    out = set()
    rest = set(facts)
    changed = True
    while changed:
        changed = False
        for f in list(rest):
            ts = _terms(f[0])
            if terms & set(ts):
                out.add(f)
                rest.discard(f)
                n = len(terms)
                terms |= set(ts)
                changed = True
    return out


def _terms(a):
    if a[0] in ('<', '=='):
        r = []
        for x in (a[1], a[2]):
            b, _ = lin(x)
            if b is not None:
                r.append(b)
        return r or [a]
    return [a]


def assume(cond, val, facts):
    """facts with (cond == val) added, or None when contradictory."""
    cond = truth(cond)
    if cond[0] == 'c':
        return facts if bool(cond[1]) == val else None
    if cond == TOP:
        return facts
    d = decide(cond, facts)
    if d == 'dead':
        return None
    if d is not None:
        return facts if d == val else None
    a, p = atom_of(cond)
    return facts | {(a, p == val)}
