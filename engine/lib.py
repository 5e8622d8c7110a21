"""Shared machinery of the rules: graph construction per entry point, automata over graphs, reports."""
import collections

import dom
import interp
from dom import consistent, mk_cmp, subst, symbols
from facts import AnalysisBroken, Prog, strip_t
from interp import Interp, fmt_path

NS = 'eprosima::utils::'


class Violation:
    def __init__(self, rule, where, loc, msg, path=()):
        self.rule = rule
        self.where = where
        self.loc = loc
        self.msg = msg
        self.path = list(path)

    def key(self):
        return '%s|%s|%s' % (self.rule, self.where, self.msg)


class Run:
    """Exploded graph of one entry point."""

    def __init__(self, it, fn, cls, label):
        self.it = it
        self.g = it.g
        self.fn = fn
        self.cls = cls
        self.label = label

    def events(self, *kinds):
        for s in self.g.succ:
            for ev, n in s:
                if ev is not None and (not kinds or ev['k'] in kinds):
                    yield ev


class Ctx:
    def __init__(self, prog, tier):
        self.p = prog
        self.tier = tier
        self.viol = {}
        self.obl = collections.Counter()
        self.okc = collections.Counter()
        self.functions = set()
        self.nodes = 0
        self.edges = 0
        self.entries = 0
        self.samples = []
        self.notes = []
        self._runs = {}

    # ---- program access
    def cls(self, name, ns=NS):
        """The (single) class with that public name; for templates use all()."""
        return self.p.rec(ns + name)

    def short(self, u):
        r = self.p.records.get(u)
        return r['q'].replace('eprosima::utils::', '') if r else u

    def fname(self, fn):
        return fn['q'].replace('eprosima::utils::', '') if fn else '?'

    def methods(self, cls, name=None):
        """Public API of a class with final overriders resolved: [fn]."""
        out = []
        seen = set()
        for m, o in self.p.public_methods(cls):
            if name is not None and m['name'] != name:
                continue
            u = self.p.find_override(cls, m['u']) if m.get('virt') else m['u']
            f = self.p.fn(u)
            if f is None or f.get('body') is None:
                f2 = self.p.fn(m['u'])
                if m.get('pure') or f2 is None or f2.get('body') is None:
                    continue
                f = f2
            if f['u'] in seen:
                continue
            seen.add(f['u'])
            out.append(f)
        return out

    def method1(self, cls, name, need=True):
        r = [f for f in self.methods(cls, name)]
        if not r and need:
            raise AnalysisBroken('public method %s::%s has no analysable definition' % (self.short(cls), name))
        return r

    def ctors(self, cls):
        r = self.p.records[cls]
        out = []
        for m in r['methods']:
            if m['kind'] == 'ctor' and not m.get('deleted'):
                f = self.p.fn(m['u'])
                if f is not None and f.get('body') is not None:
                    out.append(f)
        return out

    def dtor(self, cls):
        r = self.p.records[cls]
        for m in r['methods']:
            if m['kind'] == 'dtor':
                f = self.p.fn(m['u'])
                if f is not None:
                    return f
        return None

    # ---- analysis
    def run(self, fn, cls=None, key=None, **kw):
        k = (fn['u'], cls, key)
        r = self._runs.get(k)
        if r is not None:
            self._count(r)
            return r
        it = Interp(self.p, **{x: kw.pop(x) for x in ('may_throw', 'opaque', 'dyn', 'max_nodes', 'confined', 'still', 'running', 'keep', 'snap', 'handlers') if x in kw})
        try:
            if fn.get('kind') == 'ctor' and 'cls' in kw:
                kw.pop('cls')
            it.run(fn, cls=cls, **kw)
        except interp.Limit as ex:
            raise AnalysisBroken('%s: %s' % (self.fname(fn), ex))
        r = Run(it, fn, cls, self.fname(fn) if not cls else '%s [on %s]' % (self.fname(fn), self.short(cls)))
        self._runs[k] = r
        if it.unsupported:
            raise AnalysisBroken('construct not understood in %s: %s' % (r.label, sorted({str((a, self.p.loc(b))) for a, b in it.unsupported})[:3]))
        self._count(r)
        return r

    def run_special(self, kind, cls, key=None, setup=None, **kw):
        """Copy/move construction/assignment of cls: user-provided body if there is one, else memberwise.
        Returns (run, path of the source object) or None when the operation does not exist."""
        r = self.p.records[cls]
        fld = {'move_ctor': 'nmovector', 'copy_ctor': 'ncopyctor', 'move_assign': 'nmoveassign', 'copy_assign': 'ncopyassign'}[kind]
        how = r.get(fld)
        move = kind.startswith('move')
        for m in r['methods']:
            if (m['kind'] == 'ctor') != kind.endswith('ctor') or len(m['pt']) != 1:
                continue
            if kind.endswith('assign') and m['name'] != 'operator=':
                continue
            pt = m['pt'][0]
            if pt.endswith('&&') != move:
                continue
            if unref(pt) != interp.unconst(r['t']):
                continue
            if m.get('deleted'):
                return None
            f = self.p.fn(m['u'])
            if f is not None and f.get('body') is not None and not m.get('defaulted'):
                src = ('P', f['params'][0]['n'] or 'arg0')
                return self.run(f, cls, key=key, setup=(lambda it, st: setup(it, st, src)) if setup else None, **kw), src
            if not m.get('defaulted') and not m.get('implicit'):
                raise AnalysisBroken('no body for %s of %s' % (kind, self.short(cls)))
            break
        else:
            if how in (None, 'none', 'deleted'):
                return None
            if kind.endswith('assign') and any(f['t'].endswith('&') or f['t'].startswith('const ') and not f['t'].endswith('*') for _, f in self.p.all_fields(cls)):
                return None      # implicitly deleted
        k = (kind, cls, key)
        run = self._runs.get(k)
        src = ('P', 'other')
        if run is None:
            it = Interp(self.p, **kw)
            it.run_special(kind, cls, setup=(lambda i, st: setup(i, st, src)) if setup else None)
            run = Run(it, {'u': kind, 'q': r['q'] + '::' + kind, 'loc': r['loc'], 'params': [], 'ret': 'void'}, cls,
                      '%s of %s' % (kind.replace('_', ' '), self.short(cls)))
            self._runs[k] = run
        self._count(run)
        return run, src

    def run_dtor(self, cls, key=None, setup=None, **kw):
        """Destruction of an object of dynamic class cls (destructor body, members, bases)."""
        k = ('dtor', cls, key)
        r = self._runs.get(k)
        if r is not None:
            self._count(r)
            return r
        it = Interp(self.p, **kw)
        fn = self.dtor(cls)
        fake = fn if fn is not None else {'u': 'dtor', 'q': self.p.records[cls]['q'] + '::~', 'params': [], 'ret': 'void',
                                          'loc': self.p.records[cls]['loc'], 'kind': 'dtor', 'cls': cls, 'file': '', 'name': '~'}
        if fake.get('kind') != 'dtor':
            fake['kind'] = 'dtor'
        try:
            it.run(fake, cls=cls, setup=setup)
        except interp.Limit as ex:
            raise AnalysisBroken('%s: %s' % (self.fname(fake), ex))
        r = Run(it, fake, cls, 'destruction of %s' % self.short(cls))
        self._runs[k] = r
        self._count(r)
        return r

    def run_closure(self, base, value, st, key=None, label=None, setup=None, **kw):
        k = ('clos', value, base.fn['u'], base.cls, key)
        r = self._runs.get(k)
        if r is not None:
            self._count(r)
            return r
        it = Interp(self.p, **kw)
        it.closures = base.it.closures
        try:
            g = it.run_closure(value, st, setup=setup)
        except interp.Limit as ex:
            raise AnalysisBroken('closure of %s: %s' % (base.label, ex))
        if g is None:
            return None
        fn = it.closures.get(value[1]) if value[0] == 'clos' else self.p.fn(value[1])
        r = Run(it, fn, base.cls, label or ('%s registered by %s' % ('lambda' if value[0] == 'clos' else self.fname(fn), base.label)))
        self._runs[k] = r
        self._count(r)
        return r

    def _count(self, r):
        if getattr(r, '_counted', None) is self:
            return
        r._counted = self
        self.entries += 1
        self.nodes += len(r.g.succ)
        self.edges += sum(len(s) for s in r.g.succ)
        for ev in r.events('enter'):
            self.functions.add(ev.get('u') or ev.get('name'))

    def entry_runs(self, cls, ctors=False, threads=True):
        """Runs for every public method of cls, plus the thread routines and callbacks it registers."""
        out = []
        for f in self.methods(cls):
            if f.get('kind') in ('ctor', 'dtor'):
                continue
            out.append(self.run(f, cls))
        extra = []
        if ctors:
            for f in self.ctors(cls):
                out.append(self.run(f, cls))
        if threads:
            for r in list(out):
                for v, callee, ev, st in r.it.escapes:
                    if v[0] in ('clos', 'bind', 'fnp'):
                        extra.append((r, v, callee, st))
        seen = set()
        for r, v, callee, st in extra:
            if v in seen:
                continue
            seen.add(v)
            x = self.run_closure(r, v, st, label='%s started/registered through %s in %s' % (self.closname(r, v), callee, r.label))
            if x is not None:
                x.escape = callee
                out.append(x)
        return out

    def closname(self, r, v):
        if v[0] == 'clos':
            return 'lambda'
        f = self.p.fn(v[1]) if len(v) > 1 and isinstance(v[1], str) else None
        return self.fname(f) if f else str(v[0])

    # ---- reports
    def oblige(self, rule, ok, where, loc, msg, path=(), sample=None):
        self.obl[rule] += 1
        if ok:
            self.okc[rule] += 1
            if sample and len(self.samples) < 12:
                self.samples.append('%s: %s' % (rule, sample))
            elif len(self.samples) < 6:
                self.samples.append('%s: %s: %s holds' % (rule, where, self.p.loc(loc) if isinstance(loc, (list, tuple)) else loc))
            return True
        v = Violation(rule, where, self.p.loc(loc) if isinstance(loc, (list, tuple)) or loc is None else loc, msg, path)
        self.viol.setdefault(v.key(), v)
        return False

    def need(self, n, minimum, what):
        if n < minimum:
            raise AnalysisBroken('only %d %s found (at least %d expected): the anchor of the rule is gone' % (n, what, minimum))

    def fmt(self, ev):
        d = ''
        if ev['k'] in ('write', 'read', 'xchg', 'atomic_write', 'cmut', 'cread'):
            d = fmt_path(ev.get('path')) + (' := ' + short_val(ev['val']) if ev['k'] in ('write', 'xchg') and 'val' in ev else '') + (
                ' .' + str(ev['name']) if ev.get('name') else '')
        elif ev['k'] in ('acquire', 'acquired', 'release', 'release_rec', 'trylock'):
            d = fmt_path(ev.get('m')) + (' (shared)' if ev.get('mode') == 's' else '')
        elif ev['k'] in ('cvwait', 'notify', 'asleep', 'awake'):
            d = fmt_path(ev.get('cv')) + (' why=' + str(ev.get('why')) if 'why' in ev else '')
        elif ev['k'] in ('enter', 'leave', 'call'):
            d = str(ev.get('name') or ev.get('q')).replace('eprosima::utils::', '')
        elif ev['k'] == 'stdcall':
            d = str(ev.get('q'))
        return '%s: %s %s' % (self.p.loc(ev['l']) if ev.get('l') else '?', ev['k'], d)


def unref(t):
    return interp.unconst(t.replace('&', '').strip())


def short_val(v):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 's':
        return repr(v[1])
    if k in ('fld', 'uninit', 'ref'):
        return ('&' if k == 'ref' else '') + fmt_path(v[1])
    if k == 'p':
        return str(v[1])
    if k == '+':
        return '%s + %s' % (short_val(v[1]), short_val(v[2]))
    if k in ('==', '<'):
        return '(%s %s %s)' % (short_val(v[1]), k, short_val(v[2]))
    if k == 'not':
        return '!%s' % short_val(v[1])
    if k in ('null', 'nofn', 'emptyc'):
        return k
    return str(k) + ('..' if len(v) > 1 else '')


SKIP_TRACE = {'read', 'leave', 'stdcall', 'cread', 'elem', 'itderef', 'iter', 'iterend', 'iterdone', 'predcheck', 'construct', 'cconstruct', 'memberwise',
              'init_member', 'staticinit'}


def monitor(ctx, run, init, step, limit=400000, final=None):
    """Fixpoint of an automaton over the exploded graph.

    step(state, event) -> iterable of states; a state may also be ('!', rule, msg[, newstate]) = violation.
    final(state, kind, st, val) is asked at every exit for (rule, msg) or None.
    Returns [(rule, msg, event, trace)]."""
    g = run.g
    start = (0, init)
    pred = {start: None}
    work = collections.deque([start])
    found = []
    seenv = set()
    while work:
        cur = work.popleft()
        n, ms = cur
        for ev, m in g.succ[n]:
            if ev is None:
                nxt = (ms,)
            else:
                nxt = step(ms, ev)
                if nxt is None:
                    nxt = (ms,)
            for x in nxt:
                if isinstance(x, tuple) and x and x[0] == '!':
                    k = (x[1], x[2], ev.get('l'), ev['fn']['u'] if ev.get('fn') else None)
                    if k not in seenv:
                        seenv.add(k)
                        found.append((x[1], x[2], ev, trace(ctx, run, pred, cur) + [ctx.fmt(ev)]))
                    if len(x) > 3:
                        x = x[3]
                    else:
                        continue
                nn = (m, x)
                if nn not in pred:
                    pred[nn] = (cur, ev)
                    if len(pred) > limit:
                        raise AnalysisBroken('automaton over %s has more than %d states' % (run.label, limit))
                    work.append(nn)
    if final is not None:
        ex = {}
        for node, kind, st, val in g.exits:
            ex.setdefault(node, []).append((kind, st, val))
        for cur in list(pred):
            for kind, st, val in ex.get(cur[0], ()):
                r = final(cur[1], kind, st, val)
                if r and (r[0], r[1]) not in seenv:
                    seenv.add((r[0], r[1]))
                    ev = pred[cur][1] if pred[cur] else None
                    found.append((r[0], r[1], ev or {'l': run.fn['loc'], 'k': 'exit'}, trace(ctx, run, pred, cur)))
    return found


def trace(ctx, run, pred, cur, maxlen=60):
    out = []
    while cur is not None:
        p = pred[cur]
        if p is None:
            break
        cur, ev = p
        if ev is not None and ev['k'] not in SKIP_TRACE:
            s = ctx.fmt(ev)
            if not out or out[-1] != s:
                out.append(s)
    out.reverse()
    if len(out) > maxlen:
        out = out[:8] + ['...'] + out[-(maxlen - 8):]
    return out


def path_to(ctx, run, node):
    """Some event path from the entry to a graph node."""
    prev = {0: None}
    work = collections.deque([0])
    while work:
        n = work.popleft()
        if n == node:
            break
        for ev, m in run.g.succ[n]:
            if m not in prev:
                prev[m] = (n, ev)
                work.append(m)
    out = []
    n = node
    while n in prev and prev[n] is not None:
        n, ev = prev[n]
        if ev is not None and ev['k'] not in SKIP_TRACE:
            out.append(ctx.fmt(ev))
    out.reverse()
    if len(out) > 60:
        out = out[:8] + ['...'] + out[-52:]
    return out


def root_mutex(m):
    return m


def holds(ev, m, mode=None):
    for y in ev['locks']:
        if y[0] == m and (mode is None or len(y) < 2 or y[1] == mode or mode == 'any'):
            return True
    return False


# ------------------------------------------------------------------ facts over fields
def fields_of(v):
    """paths of shared fields mentioned in a value: set of (path, version)"""
    return {(s[1], s[2]) for s in symbols(v) if s[0] == 'fld'}


def rebase(v, m):
    """Replace ('fld', path, *) by m(path) (None keeps)."""
    def f(s):
        if s[0] == 'fld':
            return m(s[1], s[2])
        return None
    return recanon(subst(v, f))


def recanon(v):
    """Re-normalise comparisons after a substitution."""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] in ('==', '<') and len(v) == 3:
        return mk_cmp(v[0], recanon(v[1]), recanon(v[2]))
    if v[0] == 'not' and len(v) == 2:
        return dom.neg(dom.truth(recanon(v[1])))
    if v[0] == '+' and len(v) == 3 and v[2][0] == 'c':
        return dom.add(recanon(v[1]), v[2][1])
    return v


def assume_all(facts, conds):
    """facts plus [(value, polarity)] or None when contradictory."""
    for c, p in conds:
        facts = dom.assume(dom.truth(c), p, facts)
        if facts is None:
            return None
    return facts
