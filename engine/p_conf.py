"""X02: what the build leaves out (log entries, assertions) has no effect."""
from collections import Counter
from facts import Prog
from p_init import NS

JUMPS = {'CXXNewExpr': 'memory is allocated', 'CXXDeleteExpr': 'an object is deleted', 'CXXThrowExpr': 'an exception is thrown', 'ReturnStmt': 'the function ends',
         'BreakStmt': 'a loop or switch is left', 'ContinueStmt': 'an iteration is left', 'GotoStmt': 'control jumps'}
ACCESS = ('begin', 'end', 'rbegin', 'rend', 'front', 'back', 'data', 'at', 'find', 'get', 'load', 'what', 'lower_bound', 'upper_bound', 'rdbuf')
STREAM = ('basic_ostream', 'basic_stringstream', 'basic_ostringstream', 'basic_ios', 'ios_base', 'basic_iostream')
STDBAD = ('exchange', 'swap', 'getline', 'move', 'signal', 'raise', 'exit', 'terminate', 'abort', 'iter_swap', 'reverse', 'sort', 'rand', 'remove', 'rename')
CFREE = ('__assert_fail', '__assert', 'strlen', 'strcmp', 'strerror')
LOGS = ('eprosima::fastdds::dds::Log::QueueLog', 'eprosima::fastdds::dds::Log::GetVerbosity', 'eprosima::fastdds::dds::Log::Flush')


def walk(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for k, v in n.items():
            if k not in ('f', 'm') and isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def root(e):
    """the object an expression designates (name, kind), through members, casts, parentheses and indices"""
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'DeclRefExpr':
            return (e.get('id') or e.get('n'), e.get('dk'))
        if k == 'MemberExpr':
            e = e.get('b')
        elif k == 'CXXThisExpr':
            return ('this', 'this')
        elif k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr') and e.get('k') != 'MaterializeTemporaryExpr':
            return ('temporary', 'temp')
        elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if k == 'CXXOperatorCallExpr' and e.get('a'):
                e = e['a'][0]
                continue
            return ('temporary', 'temp') if not e.get('lv') else ('result', 'call')
        elif e.get('a'):
            e = e['a'][0]
        else:
            return ('?', '?')
    return ('?', '?')


def kids(n):
    for v in n.values():
        if isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield x


class Effects:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def pure(self, u):
        """the function changes nothing but its own variables"""
        if u in self.memo:
            return self.memo[u]
        self.memo[u] = True
        f = self.p.fn(u)
        if f is None or f.get('body') is None:
            r = False
        else:
            r = not any(True for _ in self.of(f['body'], (), jumps=False))
        self.memo[u] = r
        return r

    def decls(self, body):
        return {v.get('id') for n in walk(body) if n['k'] == 'DeclStmt' for v in n.get('vars', ()) if not str(v.get('id')).startswith('sl:') and not (v.get('t') or '').endswith('&')}

    def of(self, body, outer, jumps=True):
        """effects of the statements of body on anything but its own variables; with jumps: also leaving"""
        own = self.decls(body) - set(outer)

        def mine(e):
            r = root(e)
            return r[0] in own or r[1] == 'temp'
        inner = {id(r) for n in walk(body) if n['k'] == 'LambdaExpr' for r in walk(n) if r['k'] == 'ReturnStmt'}
        for n in walk(body):
            k = n['k']
            if id(n) in inner:
                continue
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (k[0] == 'C' or n.get('op') == '='):
                if not mine(n['a'][0]):
                    yield n, 'an assignment', str(root(n['a'][0])[0])
            elif k == 'UnaryOperator' and n.get('op') in ('++', '--'):
                if not mine(n['a'][0]):
                    yield n, '%s of a variable' % n['op'], str(root(n['a'][0])[0])
            elif k in JUMPS and (jumps or k in ('CXXNewExpr', 'CXXDeleteExpr', 'CXXThrowExpr')):
                yield n, JUMPS[k], ''
            elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                f = n.get('f')
                if f is None:
                    yield n, 'a call of a function that is not known', ''
                    continue
                q = f.get('q') or ''
                last = q.rsplit('::', 1)[-1]
                obj = None
                if k == 'CXXMemberCallExpr':
                    c = n.get('c') or {}
                    obj = c.get('b')
                elif f.get('cls') and not f.get('static') and n.get('a'):
                    obj = n['a'][0]
                if any(s in (f.get('cq') or '') for s in STREAM):
                    continue
                if q.startswith('std::') and last != 'operator<<' and last not in ACCESS:
                    args = n['a'][1:] if obj is not None and k != 'CXXMemberCallExpr' else n.get('a', [])
                    bad = [x for x, t in zip(args, f.get('pt') or []) if t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and not mine(x)]
                    if bad and not any(z in t for z in STREAM for t in f['pt'] if t.endswith('&')) and last not in ('forward', 'as_const', 'addressof', 'get', 'ref'):
                        yield n, 'a call of %s, which may change what it is given' % last, q
                        continue
                if obj is not None:
                    if f.get('const') or last in ACCESS or mine(obj):
                        if 'function' in (f.get('cq') or '') and last == 'operator()':
                            yield n, 'a call of a function object', q
                        continue
                    if q.startswith(NS) and self.pure(f['u']):
                        continue
                    yield n, 'a call of %s, which may change its object' % last, q
                elif q in LOGS or last in CFREE:
                    continue
                elif q.startswith('std::'):
                    if last in STDBAD:
                        yield n, 'a call of ' + q, q
                elif last == 'operator<<' and (f.get('pt') or [''])[0].startswith('std::basic_ostream'):
                    continue
                elif q.startswith(NS) and self.pure(f['u']):
                    continue
                elif q.startswith(NS) and self.p.fn(f['u']) is not None and all('&' not in t.replace('&&', '') and '*' not in t or t.startswith('const ') for t in f.get('pt') or ['&']) and self.pure(f['u']):
                    continue
                else:
                    yield n, 'a call of ' + q, q


def X02(ctx):
    a = ctx.p
    b = Prog('debug' if a.config == 'release' else 'release')
    ea, eb = Effects(a), Effects(b)
    extra = common = entries = 0
    for u in sorted(set(a.functions) | set(b.functions)):
        fa, fb = a.functions.get(u), b.functions.get(u)
        f = fa or fb
        if not f['q'].startswith(NS) or '::vt_' in f['q']:
            continue
        A, B = (fa or {}).get('body'), (fb or {}).get('body')
        if A is None and B is None:
            continue
        if A is None or B is None:
            continue
        ctx.functions.add(u)
        ctx.entries += 1
        # ---- entries of the log that every build has: left out by the verbosity, or by Fast DDS
        for n in walk(A):
            if n['k'] == 'CompoundStmt' and any(m['k'] == 'DeclStmt' and any(str(v.get('id')).startswith('v:fastdds_log_ss_tmp__') for v in m.get('vars', ())) for m in kids(n)):
                entries += 1
                bad = list(ea.of(n, ()))
                ctx.oblige('entry', not bad, ctx.fname(f), (bad[0][0] if bad else n)['l'], '%s in an entry of the log, that is evaluated only when the verbosity asks for it' % bad[0][1] if bad else '')
        na, nb = (Counter((n['k'], n.get('l')) for n in walk(x)) for x in (A, B))
        if na == nb:
            common += 1
            continue
        extra += 1
        out = {}
        for body, ef, there, where in ((A, ea, a, b), (B, eb, b, a)):
            other = B if body is A else A
            od = {v.split('#')[0] for v in Effects(where).decls(other) if v}
            # a variable that both builds have is not private to what is left out
            outer = {v for v in ef.decls(body) if v and v.split('#')[0] in od}
            out[id(body)] = Counter(), {}
            for n, what, who in ef.of(body, outer):
                key = (n['k'], n.get('op'), n.get('l'), what, who.split('#')[0])
                out[id(body)][0][key] += 1
                out[id(body)][1][key] = n
        ca, cb = out[id(A)][0], out[id(B)][0]
        diff = (ca - cb) + (cb - ca)
        if not diff:
            ctx.oblige('effect', True, ctx.fname(f), f.get('loc'), '')
        for key in sorted(diff, key=str):
            side = 'release' if (ca - cb).get(key) and a.config == 'release' or (cb - ca).get(key) and a.config != 'release' else 'debug'
            ctx.oblige('effect', False, ctx.fname(f), a.loc(key[2]), '%s happens only in builds %s log entries and assertions' % (key[3], 'with' if side == 'debug' else 'without'))
    ctx.notes.append('%d functions are the same in both builds, %d differ' % (common, extra))
    ctx.need(extra, 15, 'functions with log entries or assertions that a build leaves out')
    ctx.need(entries, 8, 'entries of the log')
    ctx.need(common, 300, 'functions compared')
