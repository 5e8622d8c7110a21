"""Path-wise abstract interpreter of the Python sources (syntax trees only; nothing is imported or run).

Values are terms:  ('const', v)  ('sym', name)  ('fld', name, version)  ('obj', n)  ('clo', n)  ('bound', recv, name)  ('self',)
('super', cls)  ('mod', dotted)  ('cls', name)  ('ret', n)  ('app', f, args)  ('bin', op, a, b)  ('tuple', ...)  ('member', cls, name)
A path is a state St with its events; calls of the program's own methods and of closures are interpreted in place.
"""
import ast
import os

from facts import REPO, AnalysisBroken

LT, EQ, GT = 'lt', 'eq', 'gt'
ALL = frozenset((LT, EQ, GT))
CMP = {ast.Lt: {LT}, ast.LtE: {LT, EQ}, ast.Gt: {GT}, ast.GtE: {GT, EQ}, ast.Eq: {EQ}, ast.NotEq: {LT, GT}, ast.Is: {EQ}, ast.IsNot: {LT, GT}}
SWAP = {LT: GT, GT: LT, EQ: EQ}
EXC = ('exc',)


class Mod:
    def __init__(self, name, path, rel):
        self.name = name
        self.rel = rel
        with open(path) as f:
            self.tree = ast.parse(f.read())
        self.names = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ('imp', n.module, a.name)
        self.defs = {n.name: n for n in self.tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))}
        self.assigns = {}
        for n in self.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigns[n.targets[0].id] = n.value


class Py:
    def __init__(self, root='py_utils/py_utils'):
        self.mods = {}
        base = os.path.join(REPO, os.path.dirname(root))
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, base)[:-3].replace('/', '.')
                    try:
                        self.mods[n] = Mod(n, p, os.path.relpath(p, REPO))
                    except SyntaxError as ex:
                        raise AnalysisBroken('cannot parse %s: %s' % (p, ex))

    def find_cls(self, name):
        for m in self.mods.values():
            d = m.defs.get(name)
            if isinstance(d, ast.ClassDef):
                return m, d
        return None

    def find_fn(self, name):
        for m in self.mods.values():
            d = m.defs.get(name)
            if isinstance(d, ast.FunctionDef):
                return m, d
        return None

    def bases(self, name):
        """Linear order of the classes of the program from the most derived one."""
        out = []
        c = self.find_cls(name)
        if c is None:
            return out
        out.append(name)
        for b in c[1].bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            for x in self.bases(n) if n else []:
                if x not in out:
                    out.append(x)
        return out

    def foreign(self, cls):
        """Whether the class derives from one that is not of the program."""
        for c in self.bases(cls):
            for b in self.find_cls(c)[1].bases:
                n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                if n is None or (n != 'object' and self.find_cls(n) is None):
                    return True
        return False

    def method(self, cls, name, after=None):
        mro = self.bases(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            m, d = self.find_cls(c)
            for n in d.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return c, m, n
        return None

    def public(self, cls):
        out = {}
        for c in reversed(self.bases(cls)):
            m, d = self.find_cls(c)
            for n in d.body:
                if isinstance(n, ast.FunctionDef) and not n.name.startswith('_'):
                    out[n.name] = (c, m, n)
        return out


class St:
    def __init__(self):
        self.env = {}
        self.fields = {}
        self.ver = 0
        self.held = ()
        self.bools = {}
        self.rels = {}
        self.ev = ()
        self.depth = 0

    def fork(self):
        s = St.__new__(St)
        s.env = dict(self.env)
        s.fields = dict(self.fields)
        s.ver = self.ver
        s.held = self.held
        s.bools = dict(self.bools)
        s.rels = dict(self.rels)
        s.ev = self.ev
        s.depth = self.depth
        return s


class Interp:
    """One run; `const_fields`: what the constructor left in fields that nothing else assigns (locks, conditions)."""
    LIMIT = 20000

    def __init__(self, py, cls=None, const_fields=None, objs=None, raises=True):
        self.py = py
        self.cls = cls
        self.const_fields = const_fields or {}
        self.objs = list(objs or [])
        self.clos = []
        self.n = 0
        self.paths = 0
        self.stuck = []
        self.raises = raises
        self.methods = set()
        self.mod = None

    # ---- helpers
    def new(self, *d):
        self.objs.append(d)
        return ('obj', len(self.objs) - 1)

    def obj(self, v):
        return self.objs[v[1]] if v[0] == 'obj' else None

    def lock_of(self, v):
        """The lock behind a lock or a condition."""
        o = self.obj(v)
        if o is None:
            return None
        if o[0] in ('Lock', 'RLock'):
            return v
        if o[0] == 'Condition':
            return o[1]
        return None

    def fresh(self, what='ret'):
        self.n += 1
        return (what, self.n)

    def emit(self, st, k, node, **kw):
        kw.update(k=k, loc=(self.mod.rel if self.mod else '?', getattr(node, 'lineno', 0)), held=st.held)
        st.ev = st.ev + (kw,)

    def havoc(self, st):
        st.ver += 1
        st.fields = dict(self.const_fields)

    def tick(self):
        self.paths += 1
        if self.paths > self.LIMIT:
            raise AnalysisBroken('too many paths in the Python interpreter')

    # ---- truth
    def relset(self, st, a, b):
        if a[0] == 'const' and b[0] == 'const':
            x, y = a[1], b[1]
            try:
                return frozenset((EQ,)) if x == y and type(x) == type(y) else frozenset((LT,)) if x < y else frozenset((GT,))
            except TypeError:
                return frozenset((EQ,)) if x is y else frozenset((LT, GT))
        if a == b:
            return frozenset((EQ,))
        if repr(a) <= repr(b):
            return st.rels.get((a, b), ALL)
        return frozenset(SWAP[x] for x in st.rels.get((b, a), ALL))

    def setrel(self, st, a, b, s):
        if a == b or (a[0] == 'const' and b[0] == 'const'):
            return
        if repr(a) <= repr(b):
            st.rels[(a, b)] = frozenset(s)
        else:
            st.rels[(b, a)] = frozenset(SWAP[x] for x in s)

    def truth(self, st, v, node=None):
        """[(state, bool)]"""
        k = v[0]
        if k == 'const':
            return [(st, bool(v[1]))]
        if k == 'not':
            return [(s, not b) for s, b in self.truth(st, v[1], node)]
        if k == 'known':
            return [(st, v[2])]
        if k == 'cmp':
            _, want, a, b = v
            for x, y in ((a, b), (b, a)):
                if y[0] == 'const' and isinstance(y[1], bool) and want in (frozenset((EQ,)), frozenset((LT, GT))):
                    r = self.truth(st, x, node)
                    return [(s, (t == y[1]) == (want == frozenset((EQ,)))) for s, t in r]
            for x, y in ((a, b), (b, a)):
                if y == ('const', None) and x[0] in ('clo', 'obj', 'self', 'bound', 'tuple', 'bin', 'member') or (y == ('const', None) and x[0] == 'sym' and x in st.bools and st.bools[x]):
                    return [(st, EQ not in want)]
            have = self.relset(st, a, b)
            yes, no = have & want, have - want
            if not no:
                return [(st, True)]
            if not yes:
                return [(st, False)]
            s2 = st.fork()
            self.setrel(st, a, b, yes)
            self.setrel(s2, a, b, no)
            return [(st, True), (s2, False)]
        if k in ('clo', 'obj', 'self', 'bound', 'cls', 'mod', 'member'):
            return [(st, True)]
        if k == 'tuple':
            return [(st, len(v) > 1)]
        if v in st.bools:
            return [(st, st.bools[v])]
        s2 = st.fork()
        st.bools[v] = True
        s2.bools[v] = False
        return [(st, True), (s2, False)]

    # ---- expressions: [(state, value)], value EXC when an exception leaves the expression
    def evs(self, st, nodes):
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in out:
                if vs == EXC:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(s, n):
                    nxt.append((s2, EXC if v == EXC else vs + [v]))
            out = nxt
        return out

    def ev(self, st, n):
        if isinstance(n, ast.Constant):
            return [(st, ('const', n.value))]
        if isinstance(n, ast.Name):
            return [(st, self.name(st, n))]
        if isinstance(n, ast.Attribute):
            return [(s, v if v == EXC else self.attr(s, v, n.attr, n)) for s, v in self.ev(st, n.value)]
        if isinstance(n, ast.Lambda):
            self.clos.append((n, dict(st.env), self.mod, self.cls))
            return [(st, ('clo', len(self.clos) - 1))]
        if isinstance(n, ast.UnaryOp):
            out = []
            for s, v in self.ev(st, n.operand):
                if v == EXC:
                    out.append((s, v))
                elif isinstance(n.op, ast.Not):
                    out.append((s, ('const', not v[1]) if v[0] == 'const' else ('not', v)))
                elif isinstance(n.op, ast.USub):
                    out.append((s, ('const', -v[1]) if v[0] == 'const' and isinstance(v[1], (int, float)) else ('bin', 'Sub', ('const', 0), v)))
                else:
                    out.append((s, v))
            return out
        if isinstance(n, ast.BoolOp):
            want = isinstance(n.op, ast.Or)
            out, cur = [], [st]
            for i, x in enumerate(n.values):
                nxt = []
                for s in cur:
                    for s2, v in self.ev(s, x):
                        if v == EXC or i == len(n.values) - 1:
                            out.append((s2, v))
                            continue
                        for s3, b in self.truth(s2, v, x):
                            if b == want:
                                out.append((s3, v if v[0] == 'const' else ('known', v, b)))
                            else:
                                nxt.append(s3)
                cur = nxt
            return out
        if isinstance(n, ast.Compare):
            if len(n.ops) == 1:
                out = []
                for s, vs in self.evs(st, [n.left, n.comparators[0]]):
                    if vs == EXC:
                        out.append((s, EXC))
                    elif type(n.ops[0]) in CMP:
                        want = frozenset(CMP[type(n.ops[0])])
                        a, b = vs
                        if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and ('const', None) in (a, b) and 'made' in (a[0], b[0]):
                            out.append((s, ('const', isinstance(n.ops[0], ast.IsNot))))    # an object just made is not None
                        elif a[0] == 'const' and b[0] == 'const':
                            out.append((s, ('const', self.truth(s, ('cmp', want, a, b))[0][1])))
                        else:
                            out.append((s, ('cmp', want, a, b)))
                    else:
                        out.append((s, self.fresh()))
                return out
            parts = []
            l = n.left
            for o, r in zip(n.ops, n.comparators):
                parts.append(ast.copy_location(ast.Compare(l, [o], [r]), n))
                l = r
            return self.ev(st, ast.copy_location(ast.BoolOp(ast.And(), parts), n))
        if isinstance(n, ast.IfExp):
            out = []
            for s, v in self.ev(st, n.test):
                if v == EXC:
                    out.append((s, v))
                    continue
                for s2, b in self.truth(s, v, n):
                    out += self.ev(s2, n.body if b else n.orelse)
            return out
        if isinstance(n, ast.BinOp):
            out = []
            for s, vs in self.evs(st, [n.left, n.right]):
                out.append((s, EXC if vs == EXC else self.binop(type(n.op).__name__, vs[0], vs[1])))
            return out
        if isinstance(n, (ast.Tuple, ast.List)):
            return [(s, vs if vs == EXC else ('tuple',) + tuple(vs)) for s, vs in self.evs(st, [x.value if isinstance(x, ast.Starred) else x for x in n.elts])]
        if isinstance(n, ast.NamedExpr):
            out = []
            for s, v in self.ev(st, n.value):
                if v != EXC:
                    s.env[n.target.id] = v
                out.append((s, v))
            return out
        if isinstance(n, ast.Call):
            return self.call(st, n)
        if isinstance(n, ast.JoinedStr):
            vals = [x.value for x in n.values if isinstance(x, ast.FormattedValue)]
            return [(s, EXC if vs == EXC else self.fresh()) for s, vs in self.evs(st, vals)]
        if isinstance(n, (ast.Dict, ast.Subscript, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Set)):
            if isinstance(n, ast.Subscript):
                return [(s, EXC if vs == EXC else ('app', ('item',), tuple(vs))) for s, vs in self.evs(st, [n.value] + ([n.slice] if not isinstance(n.slice, ast.Slice) else []))]
            return [(st, self.fresh())]
        if isinstance(n, ast.Starred):
            return self.ev(st, n.value)
        raise AnalysisBroken('%s:%d: Python expression %s not understood' % (self.mod.rel, getattr(n, 'lineno', 0), type(n).__name__))

    def binop(self, op, a, b):
        if a[0] == 'const' and b[0] == 'const':
            try:
                return ('const', {'Add': lambda: a[1] + b[1], 'Sub': lambda: a[1] - b[1], 'Mult': lambda: a[1] * b[1]}[op]())
            except Exception:
                pass
        if op == 'Sub' and b[0] == 'const' and isinstance(b[1], (int, float)):
            op, b = 'Add', ('const', -b[1])
        if op == 'Add' and a[0] == 'const' and b[0] != 'const':
            a, b = b, a
        if op == 'Add' and b == ('const', 0):
            return a
        if op == 'Add' and b[0] == 'const' and a[0] == 'bin' and a[1] == 'Add' and a[3][0] == 'const':
            return self.binop('Add', a[2], ('const', a[3][1] + b[1]))
        if op == 'Add' and b[0] == 'bin' and b[1:3] == ('Sub', ('const', 0)):
            op, b = 'Sub', b[3]
        if op in ('Add', 'Mult') and b[0] != 'const' and repr(b) < repr(a):
            a, b = b, a
        return ('bin', op, a, b)

    def name(self, st, n):
        if n.id in st.env:
            return st.env[n.id]
        return self.glob(n.id)

    def glob(self, name, mod=None):
        mod = mod or self.mod
        if name in mod.defs:
            d = mod.defs[name]
            if isinstance(d, ast.ClassDef):
                return ('cls', name)
            self.clos.append((d, {}, mod, None))
            return ('clo', len(self.clos) - 1)
        if name in mod.names:
            x = mod.names[name]
            if x[0] == 'mod':
                return x
            m = self.py.mods.get(x[1])
            if m is not None:
                return self.glob(x[2], m)
            return ('mod', '%s.%s' % (x[1], x[2]))
        if name in mod.assigns and isinstance(mod.assigns[name], ast.Constant):
            return ('const', mod.assigns[name].value)
        return ('mod', name)

    def attr(self, st, v, a, n):
        if v[0] == 'self' or v[0] == 'super':
            m = self.py.method(self.cls, a, v[1] if v[0] == 'super' else None)
            if m is not None:
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in m[2].decorator_list):
                    raise AnalysisBroken('%s:%d: properties are not understood' % (self.mod.rel, n.lineno))
                return ('bound', v, a)
            if v[0] == 'super':
                return ('bound', v, a)
            if a not in st.fields:
                st.fields[a] = ('fld', a, st.ver)
            self.emit(st, 'read', n, name=a, val=st.fields[a])
            return st.fields[a]
        if v[0] == 'mod':
            return ('mod', v[1] + '.' + a)
        if v[0] == 'cls':
            m = self.py.method(v[1], a)
            if m is not None:
                return ('bound', v, a)
            return ('member', v[1], a)
        return ('bound', v, a)

    # ---- calls
    def call(self, st, n):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            return [(st, ('super', st.env.get('__class__', ('', self.cls))[1]))]
        for s, f in self.callee(st, n.func):
            if f == EXC:
                out.append((s, f))
                continue
            for s2, vs in self.evs(s, list(n.args) + [k.value for k in n.keywords]):
                if vs == EXC:
                    out.append((s2, EXC))
                    continue
                args = vs[:len(n.args)]
                kw = [(k.arg, v) for k, v in zip(n.keywords, vs[len(n.args):])]
                star = tuple(isinstance(a, ast.Starred) for a in n.args)
                out += self.apply(s2, f, args, kw, n, star)
        return out

    def callee(self, st, f):
        """A method inherited from a class that is not of the program is not a field."""
        if isinstance(f, ast.Attribute) and self.cls and self.py.foreign(self.cls):
            out = []
            for s, v in self.ev(st, f.value):
                if v == ('self',) and self.py.method(self.cls, f.attr) is None and f.attr not in s.fields:
                    out.append((s, ('bound', v, f.attr)))
                else:
                    out.append((s, v if v == EXC else self.attr(s, v, f.attr, f)))
            return out
        return self.ev(st, f)

    def bind(self, d, args, kw, self_v, env, defenv_mod, st, star=()):
        a = d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(env)
        given = ([self_v] if self_v is not None else []) + list(args)
        bound = set()
        for nm, v in zip(names, given):
            vals[nm] = v
            bound.add(nm)
        if len(given) > len(names) and a.vararg is None:
            raise AnalysisBroken('too many arguments at a call in %s' % self.mod.rel)
        if a.vararg is not None:
            vals[a.vararg.arg] = ('tuple',) + tuple(given[len(names):])
        extra = []
        for k, v in kw:
            if k in names + [x.arg for x in a.kwonlyargs]:
                vals[k] = v
                bound.add(k)
            else:
                extra.append((k, v))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = ('kw',) + tuple(extra)
        save = self.mod
        self.mod = defenv_mod
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, dv) for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None]
        for nm, dv in defs:
            if nm not in bound:
                s3 = st.fork()
                s3.env = {}
                # a default may name a function of the class body
                if isinstance(dv, ast.Name) and self.cls and self.py.method(self.cls, dv.id):
                    c, m, fd = self.py.method(self.cls, dv.id)
                    self.clos.append((fd, {}, m, self.cls))
                    vals[nm] = ('clo', len(self.clos) - 1)
                else:
                    vals[nm] = self.ev(s3, dv)[0][1]
        self.mod = save
        return vals

    def invoke(self, st, d, env, mod, where=None):
        """Interpret a function (or lambda) with its environment bound: [(state, value or EXC)]"""
        if st.depth > 24:
            raise AnalysisBroken('recursion too deep at %s' % getattr(d, 'name', 'lambda'))
        save_env, save_mod = st.env, self.mod
        self.methods.add((mod.rel, getattr(d, 'name', 'lambda'), d.lineno))
        self.mod = mod
        st.env = env
        st.depth += 1
        out = []
        if isinstance(d, ast.Lambda):
            for s, v in self.ev(st, d.body):
                s.env = dict(save_env)
                s.depth -= 1
                out.append((s, v))
        else:
            for s, o in self.block(st, d.body):
                s.env = dict(save_env)
                s.depth -= 1
                out.append((s, o[1] if o[0] == 'ret' else EXC if o[0] == 'exc' else ('const', None)))
        self.mod = save_mod
        return out

    def apply(self, st, f, args, kw, n, star=()):
        self.tick()
        k = f[0]
        if k == 'clo':
            d, env, mod, _ = self.clos[f[1]]
            return self.invoke(st, d, self.bind(d, args, kw, None, env, mod, st), mod)
        if k == 'bound' and f[1][0] in ('self', 'super', 'cls'):
            after = f[1][1] if f[1][0] == 'super' else None
            m = self.py.method(self.cls if f[1][0] != 'cls' else f[1][1], f[2], after)
            if m is None:
                self.emit(st, 'call', n, q=f[2], recv=f[1], args=tuple(args), kw=tuple(kw))
                return [(st, self.fresh())]
            c, mod, d = m
            static = any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in d.decorator_list)
            sv = None if static else ('self',) if f[1][0] != 'cls' else None
            env = self.bind(d, args, kw, sv, {}, mod, st)
            env['__class__'] = ('cls', c)
            return self.invoke(st, d, env, mod)
        if k == 'bound':
            o = self.obj(f[1])
            if o is not None and o[0] in ('Lock', 'RLock', 'Condition'):
                return self.sync(st, f[1], o, f[2], args, dict(kw), n)
            self.emit(st, 'call', n, q=f[2], recv=f[1], args=tuple(args), kw=tuple(kw))
            return [(st, self.fresh())]
        if k == 'mod':
            q = f[1]
            if q == 'threading.Lock':
                return [(st, self.new('Lock'))]
            if q == 'threading.RLock':
                return [(st, self.new('RLock'))]
            if q == 'threading.Condition':
                lk = args[0] if args else dict(kw).get('lock')
                if lk is None or lk == ('const', None):
                    lk = self.new('RLock')
                return [(st, self.new('Condition', lk))]
            if q == 'bool' and len(args) == 1:
                return [(s, ('const', b)) if args[0][0] == 'const' else (s, ('known', args[0], b)) for s, b in self.truth(st, args[0], n)]
            self.emit(st, 'call', n, q=q, recv=None, args=tuple(args), kw=tuple(kw))
            return [(st, self.fresh('ret') if not q.startswith('logging.') else ('made', q, tuple(args)))]
        if k == 'cls':
            self.emit(st, 'call', n, q=f[1], recv=None, args=tuple(args), kw=tuple(kw))
            return [(st, self.new('instance', f[1], tuple(args)))]
        # a function given by the user
        self.emit(st, 'invoke', n, f=f, args=tuple(args), kw=tuple(kw), star=star)
        out = []
        if self.raises:
            s2 = st.fork()
            self.emit(s2, 'raised', n, f=f)
            out.append((s2, EXC))
        out.append((st, ('app', f, tuple(args))))
        return out

    def acquire(self, st, lk, n):
        o = self.obj(lk)
        if lk in st.held and o[0] == 'Lock':
            self.emit(st, 'deadlock', n, m=lk, why='the lock is taken twice by the same thread')
        if lk not in st.held:
            self.havoc(st)
        st.held = st.held + (lk,)
        self.emit(st, 'acquire', n, m=lk)

    def release(self, st, lk, n):
        if lk not in st.held:
            self.emit(st, 'deadlock', n, m=lk, why='a lock that is not held is released')
            return
        h = list(st.held)
        h.reverse()
        h.remove(lk)
        h.reverse()
        self.emit(st, 'release', n, m=lk)
        st.held = tuple(h)
        if lk not in st.held:
            st.ver += 1
            st.fields = dict(self.const_fields)

    def sync(self, st, v, o, name, args, kw, n):
        lk = self.lock_of(v)
        if name == 'acquire':
            self.acquire(st, lk, n)
            return [(st, ('const', True))]
        if name == 'release':
            self.release(st, lk, n)
            return [(st, ('const', None))]
        if name in ('notify_all', 'notifyAll', 'notify'):
            self.emit(st, 'notify', n, cv=v, lock=lk, all=name != 'notify')
            return [(st, ('const', None))]
        if name == 'wait':
            t = args[0] if args else kw.get('timeout', ('const', None))
            self.emit(st, 'sleep', n, cv=v, lock=lk, timeout=t, facts=(dict(st.bools), dict(st.rels)), fields=dict(st.fields), pred=None)
            self.havoc(st)
            self.emit(st, 'woken', n, cv=v)
            return [(st, self.fresh() if t != ('const', None) else ('const', True))]
        if name == 'wait_for':
            pred = args[0] if args else kw.get('predicate')
            t = args[1] if len(args) > 1 else kw.get('timeout', ('const', None))
            out = []
            # the predicate is evaluated on entry, and after every sleep, with the lock held
            s0 = st.fork()
            for s, r in self.apply(s0, pred, [], [], n):
                if r == EXC:
                    out.append((s, r))
                    continue
                for s2, b in self.truth(s, r, n):
                    if b:
                        out.append((s2, r if r[0] == 'const' else ('known', r, True)))
                    else:
                        self.emit(s2, 'sleep', n, cv=v, lock=lk, timeout=t, facts=(dict(s2.bools), dict(s2.rels)), fields=dict(s2.fields), pred=pred)
                        self.havoc(s2)
                        self.emit(s2, 'woken', n, cv=v)
                        for s3, r3 in self.apply(s2, pred, [], [], n):
                            if r3 == EXC:
                                out.append((s3, r3))
                                continue
                            for s4, b4 in self.truth(s3, r3, n):
                                if b4:
                                    out.append((s4, r3 if r3[0] == 'const' else ('known', r3, True)))
                                elif t != ('const', None):
                                    self.emit(s4, 'timedout', n, cv=v)
                                    out.append((s4, r3 if r3[0] == 'const' else ('known', r3, False)))
            return out
        if name == 'locked':
            return [(st, self.fresh())]
        raise AnalysisBroken('%s:%d: %s of a lock is not understood' % (self.mod.rel, n.lineno, name))

    # ---- statements: [(state, outcome)]
    def block(self, st, body):
        cur = [(st, ('next',))]
        for x in body:
            nxt = []
            for s, o in cur:
                if o[0] != 'next':
                    nxt.append((s, o))
                else:
                    nxt += self.stmt(s, x)
            cur = nxt
            if len(cur) > self.LIMIT:
                raise AnalysisBroken('too many paths')
        return cur

    def expr_then(self, st, e, fn):
        out = []
        for s, v in self.ev(st, e):
            if v == EXC:
                out.append((s, EXC))
            else:
                out += fn(s, v)
        return out

    def assign(self, st, t, v, n):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [(st, ('next',))]
        if isinstance(t, ast.Attribute):
            def w(s, b):
                if b[0] == 'self':
                    self.emit(s, 'write', n, name=t.attr, old=s.fields.get(t.attr, ('fld', t.attr, s.ver)), val=v)
                    s.fields[t.attr] = v
                return [(s, ('next',))]
            return self.expr_then(st, t.value, w)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                r = self.assign(st, x, v[1 + i] if v[0] == 'tuple' and len(v) > 1 + i else self.fresh(), n)
                st = r[0][0]
            return [(st, ('next',))]
        return [(st, ('next',))]

    def stmt(self, st, x):
        self.tick()
        nx = ('next',)
        if isinstance(x, ast.Expr):
            return self.expr_then(st, x.value, lambda s, v: [(s, nx)])
        if isinstance(x, ast.Assign):
            def go(s, v):
                cur = [(s, nx)]
                for t in x.targets:
                    cur = [r for s1, o in cur for r in (self.assign(s1, t, v, x) if o == nx else [(s1, o)])]
                return cur
            return self.expr_then(st, x.value, go)
        if isinstance(x, ast.AnnAssign):
            if x.value is None:
                return [(st, nx)]
            return self.expr_then(st, x.value, lambda s, v: self.assign(s, x.target, v, x))
        if isinstance(x, ast.AugAssign):
            load = ast.copy_location(ast.Name(x.target.id, ast.Load()), x) if isinstance(x.target, ast.Name) else ast.copy_location(
                ast.Attribute(x.target.value, x.target.attr, ast.Load()), x) if isinstance(x.target, ast.Attribute) else None
            if load is None:
                raise AnalysisBroken('%s:%d: assignment not understood' % (self.mod.rel, x.lineno))
            return self.expr_then(st, ast.copy_location(ast.BinOp(load, x.op, x.value), x), lambda s, v: self.assign(s, x.target, v, x))
        if isinstance(x, ast.If):
            def br(s, v):
                out = []
                for s2, b in self.truth(s, v, x):
                    out += self.block(s2, x.body if b else x.orelse)
                return out
            return self.expr_then(st, x.test, br)
        if isinstance(x, ast.While):
            return self.loop(st, x)
        if isinstance(x, ast.For):
            def it(s, v):
                out = [(s.fork(), nx)]
                cur = [s]
                for _ in range(2):
                    nxt = []
                    for c in cur:
                        if isinstance(x.target, ast.Name):
                            c.env[x.target.id] = self.fresh('elem')
                        self.emit(c, 'iter', x, over=v, val=c.env.get(getattr(x.target, 'id', ''), None))
                        for s2, o in self.block(c, x.body):
                            if o[0] in ('next', 'cont'):
                                out.append((s2.fork(), nx))
                                nxt.append(s2)
                            elif o[0] == 'brk':
                                out.append((s2, nx))
                            else:
                                out.append((s2, o))
                    cur = nxt
                return out
            return self.expr_then(st, x.iter, it)
        if isinstance(x, ast.With):
            return self.with_(st, x, 0)
        if isinstance(x, ast.Try):
            return self.try_(st, x)
        if isinstance(x, ast.Return):
            if x.value is None:
                return [(st, ('ret', ('const', None)))]
            return self.expr_then(st, x.value, lambda s, v: [(s, ('ret', v))])
        if isinstance(x, ast.Raise):
            if x.exc is None:
                self.emit(st, 'throw', x)
                return [(st, EXC)]

            def rz(s, v):
                self.emit(s, 'throw', x)
                return [(s, EXC)]
            return self.expr_then(st, x.exc, rz)
        if isinstance(x, ast.Break):
            return [(st, ('brk',))]
        if isinstance(x, ast.Continue):
            return [(st, ('cont',))]
        if isinstance(x, ast.FunctionDef):
            self.clos.append((x, dict(st.env), self.mod, self.cls))
            st.env[x.name] = ('clo', len(self.clos) - 1)
            return [(st, nx)]
        if isinstance(x, ast.Assert):
            return self.expr_then(st, x.test, lambda s, v: [(s2, nx) for s2, b in self.truth(s, v, x) if b])
        if isinstance(x, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete)):
            return [(st, nx)]
        raise AnalysisBroken('%s:%d: Python statement %s not understood' % (self.mod.rel, x.lineno, type(x).__name__))

    def loop(self, st, x):
        nx = ('next',)
        out = []
        cur = [st]
        for k in range(4):
            nxt = []
            for s in cur:
                for s1, v in self.ev(s, x.test):
                    if v == EXC:
                        out.append((s1, EXC))
                        continue
                    for s2, b in self.truth(s1, v, x):
                        if not b:
                            out += self.block(s2, x.orelse) if x.orelse else [(s2, nx)]
                            continue
                        if k == 3:
                            continue
                        ver = s2.ver
                        mark = len(s2.ev)
                        for s3, o in self.block(s2, x.body):
                            if o[0] in ('next', 'cont'):
                                if s3.held and s3.ver == ver and not any(e['k'] in ('write', 'call', 'invoke') for e in s3.ev[mark:]):
                                    self.stuck.append((self.mod.rel, x.lineno, s3.ev))
                                nxt.append(s3)
                            elif o[0] == 'brk':
                                out.append((s3, nx))
                            else:
                                out.append((s3, o))
            cur = nxt
        return out

    def with_(self, st, x, i):
        if i == len(x.items):
            return self.block(st, x.body)
        it = x.items[i]

        def go(s, v):
            lk = self.lock_of(v)
            if lk is None:
                if it.optional_vars is not None:
                    self.assign(s, it.optional_vars, self.fresh(), x)
                return self.with_(s, x, i + 1)
            self.acquire(s, lk, x)
            out = []
            for s2, o in self.with_(s, x, i + 1):
                self.release(s2, lk, x)
                out.append((s2, o))
            return out
        return self.expr_then(st, it.context_expr, go)

    def try_(self, st, x):
        res = []
        for s, o in self.block(st, x.body):
            if o[0] == 'exc' and x.handlers:
                for h in x.handlers:
                    s2 = s.fork()
                    if h.name:
                        s2.env[h.name] = self.fresh('exception')
                    res += self.block(s2, h.body)
                if not any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('BaseException', 'Exception')) for h in x.handlers):
                    res.append((s, o))
            elif o[0] == 'next' and x.orelse:
                res += self.block(s, x.orelse)
            else:
                res.append((s, o))
        if not x.finalbody:
            return res
        out = []
        for s, o in res:
            for s2, o2 in self.block(s, x.finalbody):
                out.append((s2, o if o2[0] == 'next' else o2))
        return out

    # ---- entry points
    def run(self, name, args, kw=(), st=None):
        """A method of the class: [(state, value or EXC)]"""
        c, mod, d = self.py.method(self.cls, name)
        if st is None:
            st = St()
            st.fields = dict(self.const_fields)
        self.mod = mod
        env = self.bind(d, args, list(kw), ('self',), {}, mod, st)
        env['__class__'] = ('cls', c)
        return self.invoke(st, d, env, mod)

    def run_fn(self, name, args, kw=()):
        mod, d = self.py.find_fn(name)
        st = St()
        self.mod = mod
        return self.invoke(st, d, self.bind(d, args, list(kw), None, {}, mod, st), mod)
