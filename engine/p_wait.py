"""Condition-variable rules: lost wakeups, disable, awake reasons, teardown, counters, consumers."""
import collections

import dom
from dom import C0, C1, assume, consistent, decide, mk_cmp, neg, subst, symbols, truth
from facts import AnalysisBroken, strip_t
from interp import fmt_path
from lib import (NS, Violation, assume_all, holds, monitor, path_to, rebase, recanon, short_val)


class Sleep:
    """One way a thread can be asleep on a condition variable: the condition known when it went to sleep."""
    __slots__ = ('run', 'cv', 'm', 'loc', 'conds', 'opaque', 'thread', 'ev')

    def deps(self):
        d = set(self.opaque)
        for a, p in self.conds:
            for s in symbols(a):
                if s[0] == 'fld' and s[2] != 'k':
                    d.add(s[1])
        return d

    def key(self):
        return (self.cv, self.m, frozenset(self.conds), frozenset(self.opaque), self.thread)

    def describe(self):
        return ' && '.join(sorted(('' if p else '!') + short_val(a) for a, p in self.conds)) or '<nothing checked>'


def norm_conds(ctx, cls, facts, store, hv, keep_params=False):
    """Facts about the current values of shared fields (versions dropped); parameters become existential."""
    out = set()

    for a, p in facts:
        ok = True
        hasf = False
        for s in symbols(a):
            if s[0] == 'fld':
                path, ver = s[1], s[2]
                if path[0] == 'P' or path[0] in ('?', 'h'):
                    continue
                if ver == 'k':
                    hasf = True
                    continue
                if ver != hv:
                    ok = False
                    break
                cur = store.get(path)
                if cur is not None and cur != s:
                    ok = False
                    break
                hasf = True
            elif s[0] in ('old', 'uninit'):
                ok = False
        if not ok or not hasf:
            continue

        def f(s):
            if s[0] == 'fld':
                if s[1][0] in ('this', 'g'):
                    return ('fld', s[1], 'k' if s[2] == 'k' else 'F')
                return None if keep_params else ('wp', fmt_path(s[1]))
            if s[0] in ('p', 'r') and not keep_params:
                return ('wp', repr(s))
            return None
        out.add((recanon(subst(a, f)), p))
    return frozenset(out)


def collect_sleeps(ctx, runs, keep_params=False):
    sleeps = {}
    for r in runs:
        opq = set()
        for ev in r.events('cbcall'):
            for x in ev.get('args') or ():
                if isinstance(x, tuple) and x and x[0] in ('ref', 'obj', 'fld') and x[1][0] in ('this', 'g'):
                    opq.add(x[1])
        for ev in r.events('cvwait', 'resleep'):
            s = Sleep()
            s.run = r
            s.cv = ev['cv']
            s.m = ev['m']
            s.loc = ev['l']
            s.ev = ev
            s.conds = norm_conds(ctx, r.cls, ev['facts'], ev['store'], ev['hv'], keep_params)
            s.opaque = opq if ev.get('haspred') else set()
            s.thread = bool(getattr(r, 'escape', None))
            sleeps.setdefault(s.key(), s)
    return list(sleeps.values())


def at_section(sl, store, hv, post):
    """Sleep condition on the values before (post=False) or after a critical section."""
    def m(path, ver):
        if ver == 'k':
            return None
        if post:
            v = lookup(store, path, hv)
            return v
        return ('fld', path, hv)
    out = []
    for a, p in sl.conds:
        def mm(path, ver, a=a):
            return m(path, ver)
        out.append((rebase(a, mm), p))
    return out


def lookup(store, path, hv):
    v = store.get(path)
    if v is None or v[0] == 'alias':
        return ('fld', path, hv)
    return v


def woken(sl, ev, wrote):
    """Can the critical section ending at release event ev make sleeping condition sl false?
    Returns list of (atom, delta) responsible, empty if it cannot."""
    store, hv, facts = ev['store'], ev['hv'], ev['facts']
    deps = sl.deps() & wrote
    if not deps:
        return []
    res = []
    if sl.opaque & wrote:
        res.append(('opaque', None))
    pre = at_section(sl, store, hv, False)
    base = facts
    base = assume_all(base, pre + [(mk_cmp('<', dom.C0, a[2]), True) for a, p in pre if a[0] == '<' and p and natural(a[1])])
    if base is None:
        return []
    post = at_section(sl, store, hv, True)
    for (a, p), (oa, _) in zip(post, sl.conds):
        if not (({s[1] for s in symbols(oa) if s[0] == 'fld'}) & wrote):
            continue
        f = assume(truth(a), not p, base)
        if f is not None:
            res.append((oa, p))
    return res


def natural(v):
    return dom.is_unsigned(v) or v[0] == 'fld' and any(u[0] == 'fld' and u[1] == v[1] for u in dom.UNSIGNED)


def holds_excl(ev, m):
    for y in ev['locks']:
        if y[0] == m:
            return len(y) < 2 or y[1] != 's'
    return False


def lost_wakeups(ctx, cls, runs, rule='lost-wakeup', skip_writes=None, idle=None):
    """Every transition that may end a sleep on a condition variable notifies it.
    idle(ev): at the release event nobody is known to be waiting"""
    sleeps = collect_sleeps(ctx, runs)
    cname = ctx.short(cls)
    for s in sleeps:
        ctx.oblige(rule + '/checked-under-mutex', bool(s.conds or s.opaque) and s.ev.get('owned', True), s.run.label, s.loc,
                   'a thread goes to sleep on %s without having checked its condition while holding the mutex' % fmt_path(s.cv))
    bycv = collections.defaultdict(list)
    for s in sleeps:
        bycv[s.cv].append(s)
    # which cvs have only consuming waiters: the waiter writes a field of its condition before leaving the section
    consuming = {}
    for cv, ss in bycv.items():
        consuming[cv] = all(consumes(ctx, s) for s in ss)
    single_thread = {cv: all(s.thread for s in ss) and len({s.run.fn['u'] for s in ss}) == 1 for cv, ss in bycv.items()}
    producers = collections.defaultdict(list)
    consumers = collections.defaultdict(list)
    for r in runs:
        wpaths = {ev['path'] for ev in r.events('write', 'xchg', 'atomic_write', 'cmut')}
        rel = [s for s in sleeps if s.deps() & wpaths]
        if not rel:
            continue
        deps_by_m = collections.defaultdict(set)
        for s in rel:
            deps_by_m[s.m] |= s.deps()

        # state: (written fields in section, notified cvs in section, pending obligations, consumed cv)
        def step(ms, ev, rel=rel):
            wrote, notif, pend, aw = ms
            k = ev['k']
            if k in ('write', 'xchg', 'atomic_write', 'cmut'):
                pth = ev['path']
                hit = False
                for s in rel:
                    if pth in s.deps():
                        hit = True
                        if not holds_excl(ev, s.m):
                            # unlocked change of a waited-for field: must pass through the mutex before notifying
                            pend = pend | {(s.cv, 'lock', None, True)}
                if hit:
                    wrote = wrote | {pth}
                return [(wrote, notif, pend, aw)]
            if k == 'acquired':
                m = ev['m']
                cvs = {s.cv for s in rel if s.m == m}
                pend = frozenset((c, 'notify' if st == 'lock' and c in cvs else st, why, al) for c, st, why, al in pend)
                wrote = frozenset(w for w in wrote if not any(w in s.deps() and s.m == m for s in rel))
                return [(wrote, frozenset(x for x in notif if x[0] not in cvs), pend, aw)]
            if k == 'awake':
                return [(wrote, notif, pend, ev['cv'])]
            if k == 'notify':
                cv = ev['cv']
                if not any(s.cv == cv for s in rel):
                    return None
                np = set()
                for c, st, why, al in pend:
                    if c == cv and st == 'notify' and (ev['all'] or not al):
                        continue
                    np.add((c, st, why, al))
                # a notification before the wakeup condition holds counts only while the mutex is still held
                return [(wrote, notif | {(cv, ev['all'])}, frozenset(np), aw)]
            if k == 'release' and 'store' in ev:
                m = ev['m']
                np = set(pend)
                if np and idle is not None and idle(ev):
                    np = {x for x in np if x[1] != 'notify' or not any(s.cv == x[0] and s.m == m for s in rel)}
                for s in rel:
                    if s.m != m:
                        continue
                    why = woken(s, ev, wrote)
                    if not why:
                        continue
                    one_ok = single_thread[s.cv] or (consuming[s.cv] and all(is_unit(s, w, ev) for w in why))
                    have = any(c == s.cv and (al or one_ok) for c, al in notif)
                    if not have:
                        np.add((s.cv, 'notify', '%s no longer holds' % ' / '.join(
                            ('' if w[1] else '!') + short_val(w[0]) if w[0] != 'opaque' else 'the predicate' for w in why), not one_ok))
                # chain rule bookkeeping for notify_one
                for s in rel:
                    if s.m == m and consuming[s.cv] and s.deps() & wrote and can_be_awake(s, ev):
                        (consumers if aw == s.cv else producers)[s.cv].append((
                            any(c == s.cv for c, al in notif), ev['l'], r.label, [c for c, al in notif]))
                wrote2 = frozenset(w for w in wrote if not any(w in s.deps() and s.m == m for s in rel))
                return [(wrote2, frozenset(x for x in notif if x[0] not in {s.cv for s in rel if s.m == m}), frozenset(np), aw)]
            if k == 'exit':
                if pend and not waived(ctx, r, ev):
                    out = []
                    for c, st, why, al in pend:
                        out.append(('!', rule, '%s on %s: a thread waiting there is left asleep (%s)' % (
                            'no notify_all' if al else 'no notification', fmt_path(c),
                            why or 'a field of its condition changes without its mutex')))
                    return out
                return []
            return None
        found = monitor(ctx, r, (frozenset(), frozenset(), frozenset(), None), step)
        ctx.oblige(rule, not found, r.label, r.fn['loc'] if r.fn else None, 'see path',
                   sample='%s wakes or cannot end every sleep in %s' % (r.label, '; '.join(sorted({s.describe() for s in rel}))[:300])) if not found else None
        for ru, msg, ev, tr in found:
            ctx.oblige(ru, False, r.label, ev['l'], msg, tr)
    for cv in bycv:
        if not consuming[cv] or single_thread[cv]:
            continue
        bp = [x for x in producers[cv] if not x[0]]
        bc = [x for x in consumers[cv] if not x[0]]
        ctx.oblige(rule + '/chain', not (bp and bc), cname, (bp or bc or [(0, None)])[0][1],
                   'waiters on %s are woken one at a time, but neither every change that leaves the condition true (%s) nor every '
                   'consumer that leaves it true (%s) notifies the next one' % (
                       fmt_path(cv), bp[0][2] if bp else '', bc[0][2] if bc else ''))
    return sleeps


def can_be_awake(s, ev):
    """After this section, may the waited-for condition be (still) true for one more waiter?"""
    post = at_section(s, ev['store'], ev['hv'], True)
    for a, p in post:
        if any(x in str(a) for x in ()):
            continue
        f = assume(truth(a), not p, ev['facts'])
        if f is not None and is_data(s, a):
            return True
    return False


def is_data(s, a):
    return True


def is_unit(s, w, ev):
    """The change makes exactly one more waiter runnable: a consumed quantity grew by one."""
    if w[0] == 'opaque':
        return False
    fl = {x[1] for x in symbols(w[0]) if x[0] == 'fld' and x[2] != 'k'}
    wf = s_writes(s)
    for p in fl:
        v = ev['store'].get(p)
        if v is None or v == ('fld', p, ev['hv']):
            continue
        if p not in wf:
            return False
        b, o = dom.lin(v)
        if b != ('fld', p, ev['hv']) or abs(o) != 1:
            return False
    return True


def s_writes(s):
    """Fields the waiter writes between waking with its condition and releasing the mutex."""
    w = getattr(s.run, '_swrites', None)
    if w is None:
        w = s.run._swrites = {}
        for cv in {ev['cv'] for ev in s.run.events('awake')}:
            w[cv] = section_writes(s.run, cv)
    return w.get(s.cv, frozenset())


def section_writes(run, cv):
    """Fields written in every path from awake(cv, why != timeout) to the release of the mutex."""
    res = None
    seen = set()
    work = []
    for n, su in enumerate(run.g.succ):
        for ev, m in su:
            if ev is not None and ev['k'] == 'awake' and ev['cv'] == cv and ev['why'] != 'timeout':
                work.append((m, frozenset()))
    out = []
    while work:
        n, w = work.pop()
        if (n, w) in seen:
            continue
        seen.add((n, w))
        if not run.g.succ[n]:
            out.append(w)
        for ev, m in run.g.succ[n]:
            w2 = w
            if ev is not None:
                if ev['k'] in ('write', 'xchg', 'atomic_write') and ev['path'][0] in ('this', 'g'):
                    w2 = w | {ev['path']}
                if ev['k'] in ('release', 'exit'):
                    out.append(w2)
                    continue
            work.append((m, w2))
    u = set()
    for w in out:
        u |= w
    return frozenset(u)


def consumes(ctx, s):
    return bool(s_writes(s) & s.deps())


def waived(ctx, r, ev):
    """The caller asked for a silent change: a bool parameter of a value setter is false on this path."""
    names = {p['n'] for p in r.fn['params'] if p['t'] == 'bool'} if r.fn else set()
    for a, p in ev['facts']:
        if a[0] == 'p' and a[1] in names and not p:
            return r.fn['name'] == 'set_value'
    return False


WAIT_CLASSES = ['event::WaitHandler', 'event::BooleanWaitHandler', 'event::IntWaitHandler', 'event::CounterWaitHandler', 'event::ConsumerWaitHandler',
                'event::DBQueueWaitHandler']


def wait_classes(ctx, names=WAIT_CLASSES):
    out = []
    for n in names:
        for r in ctx.cls(n):
            out.append(r['u'])
    return out


def W01(ctx):
    n = 0
    sl = 0
    for cls in wait_classes(ctx):
        runs = ctx.entry_runs(cls)
        s = lost_wakeups(ctx, cls, runs)
        sl += len(s)
        n += len(runs)
    ctx.need(n, 25, 'operations of wait handlers')
    ctx.need(sl, 8, 'ways of sleeping in wait handlers')


# ------------------------------------------------------------------ handler model
def exit_val(ev):
    v = ev.get('val')
    if v and v[0] == 'obj':
        return ev['store'].get(v[1], v)
    return v


def getter_path(ctx, cls, name):
    """Field returned by a public getter (discovered from its return value, not from its name)."""
    paths = set()
    for f in ctx.method1(cls, name):
        r = ctx.run(f, cls)
        for ev in r.events('exit'):
            v = exit_val(ev)
            if v and v[0] == 'fld' and v[1][0] == 'this':
                paths.add(v[1])
            else:
                return None
    return paths.pop() if len(paths) == 1 else None


def enabled_path(ctx, cls):
    p = getter_path(ctx, cls, 'enabled')
    if p is None:
        raise AnalysisBroken('%s::enabled() does not return a single field' % ctx.short(cls))
    return p


def value_path(ctx, cls):
    p = getter_path(ctx, cls, 'get_value')
    if p is None:
        raise AnalysisBroken('%s::get_value() does not return a single field' % ctx.short(cls))
    return p


def fact_about(facts, path):
    """Truth of a boolean field according to facts (any version): True/False/None."""
    r = None
    for a, p in facts:
        if a[0] == 'fld' and a[1] == path:
            r = p
    return r


def known_zero(facts, path):
    for a, p in facts:
        for s in symbols(a):
            if s[0] == 'fld' and s[1] == path:
                if decide(('<', C0, s), facts) is False or decide(mk_cmp('==', s, C0), facts) is True:
                    return True
    return False


def entails(facts, cond, pol=True):
    return assume_all(facts, [(cond, not pol)]) is None


def sleeps_of(ctx, cls):
    runs = ctx.entry_runs(cls)
    return runs, collect_sleeps(ctx, runs)


def count_path(ctx, cls, en):
    """The counter of waiting threads: the field blocking_disable waits to become zero."""
    out = set()
    for f in ctx.method1(cls, 'blocking_disable'):
        r = ctx.run(f, cls)
        for ev in r.events('read', 'acquire', 'release', 'exit', 'cvwait'):
            for a, p in ev['facts']:
                if a[0] in ('<', '=='):
                    for s in symbols(a):
                        if s[0] == 'fld' and s[1][0] == 'this' and s[1] != en:
                            out.add(s[1])
    return out


# ------------------------------------------------------------------ W02
def W02(ctx):
    n = 0
    for cls in wait_classes(ctx):
        en = enabled_path(ctx, cls)
        runs, sleeps = sleeps_of(ctx, cls)
        cname = ctx.short(cls)
        for s in sleeps:
            n += 1
            e = ('fld', en, 'F')
            ctx.oblige('sleeps-only-enabled', assume_all(frozenset(), list(s.conds) + [(e, False)]) is None, s.run.label, s.loc,
                       'a thread can sleep on %s without having seen the handler enabled: disabling does not release it' % fmt_path(s.cv),
                       sample='%s sleeps only while %s' % (s.run.label, s.describe()))
            ctx.oblige('disable-ends-sleep', en in s.deps(), s.run.label, s.loc,
                       'the condition a thread sleeps on does not depend on the handler being enabled')
        # disabling wakes every sleeper; enabling leaves the handler enabled
        sub = [r for r in runs if r.fn['name'] in ('disable', 'blocking_disable', 'stop_and_continue')]
        ctx.need(len(sub), 2, 'disabling operations of %s' % cname)
        wakes(ctx, cls, sub, sleeps, en)
        for name, want in (('disable', False), ('blocking_disable', False), ('enable', True), ('stop_and_continue', True)):
            for f in ctx.method1(cls, name, need=name != 'stop_and_continue'):
                r = ctx.run(f, cls)
                flag_at_exit(ctx, r, en, want)
        d = ctx.run_dtor(cls)
        wakes(ctx, cls, [d], sleeps, en)
        # an operation that disables and enables again lets the waiting threads leave in between
        counts = count_path(ctx, cls, en)
        for r in sub:
            def step(ms, ev):
                mine, q = ms
                if ev['k'] in ('write', 'xchg', 'atomic_write') and ev['path'] == en:
                    if ev.get('val') == C0:
                        return [(True, (True, 0))]
                    if mine and q[1] == 0:
                        return [('!', 'stop-lets-leave', 'enables the handler again before the threads that were waiting have left: they go back to sleep')]
                    return [(False, (False, 0))]
                return [(mine, quiesce_step(en, counts, (), q, ev))]
            report(ctx, r, 'stop-lets-leave', monitor(ctx, r, (False, (False, 0)), step))
    ctx.need(n, 8, 'ways of sleeping in wait handlers')


def wakes(ctx, cls, runs, sleeps, en):
    """Every write of enabled := false reaches notify_all of every condition variable of the sleeps before returning or waiting."""
    cvs = frozenset(s.cv for s in sleeps if en in s.deps())
    muts = {s.cv: s.m for s in sleeps}
    for r in runs:
        def step(ms, ev):
            dis, pend = ms
            k = ev['k']
            if k in ('write', 'xchg', 'atomic_write') and ev['path'] == en:
                if ev.get('val') == C0:
                    # nobody enables an object that is being destroyed
                    return [(True, pend if dis else cvs)]
                return [(False, frozenset())]
            if not dis and r.fn.get('kind') == 'dtor' and fact_about(ev['facts'], en) is False:
                return [(True, pend)]
            if k == 'notify' and ev['cv'] in pend and ev['all']:
                return [(dis, pend - {ev['cv']})]
            if k == 'destroy_member' and ev['path'] in pend or k == 'exit' and pend:
                return [('!', 'disable-wakes', 'after disabling, threads waiting on %s are not awaken' % ', '.join(sorted(fmt_path(c) for c in pend)))]
            return None
        found = monitor(ctx, r, (False, frozenset()), step)
        ctx.oblige('disable-wakes', not found, r.label, r.fn['loc'], 'see path') if not found else None
        for ru, msg, ev, tr in found:
            ctx.oblige(ru, False, r.label, ev['l'], msg, tr)


def flag_at_exit(ctx, r, en, want):
    def step(ms, ev):
        k = ev['k']
        if k in ('write', 'xchg', 'atomic_write') and ev['path'] == en:
            v = ev.get('val')
            return [v[1] != 0 if v and v[0] == 'c' else 'unknown']
        fa = fact_about(ev['facts'], en)
        if k == 'exit':
            cur = ms if fa is None or ms is not None else fa
            sv = ev['store'].get(en)
            if sv is not None and sv[0] == 'c':
                cur = sv[1] != 0
            elif sv is not None and decide(sv, ev['facts']) in (True, False):
                cur = decide(sv, ev['facts'])
            if cur is not want:
                return [('!', 'enabled-state', 'returns with the handler %s' % (
                    'not known to be %s' % ('enabled' if want else 'disabled') if cur in (None, 'unknown') else 'enabled' if cur else 'disabled'))]
            return []
        if ms is None and fa is not None:
            return [fa]
        return None
    found = monitor(ctx, r, None, step)
    if not found:
        ctx.oblige('enabled-state', True, r.label, r.fn['loc'], '')
    for ru, msg, ev, tr in found:
        ctx.oblige(ru, False, r.label, ev['l'], msg, tr)


# ------------------------------------------------------------------ W03
def reasons(ctx):
    e = ctx.p.enums.get(NS + 'event::AwakeReason')
    if not e:
        raise AnalysisBroken('enum AwakeReason not found')
    d = {}
    for x in e['e']:
        d[x[0] if isinstance(x, list) else x['n']] = x[1] if isinstance(x, list) else x['v']
    for n in ('disabled', 'timeout', 'condition_met'):
        if n not in d:
            raise AnalysisBroken('AwakeReason::%s not found' % n)
    return d


def reason_ops(ctx, cls):
    return [f for f in ctx.methods(cls) if f['ret'].endswith('AwakeReason')]


def not_awaited(s, en, store, hv):
    """The negated awaited condition (what must hold to keep sleeping), on current values."""
    out = []
    for a, p in s.conds:
        if any(x[0] == 'fld' and x[1] == en for x in symbols(a)):
            continue
        out.append((rebase(a, lambda path, ver: None if ver != 'F' else ('fld', path, hv)), p))
    return out


def W03(ctx):
    R = reasons(ctx)
    n = 0
    for cls in wait_classes(ctx):
        en = enabled_path(ctx, cls)
        for f in reason_ops(ctx, cls):
            r = ctx.run(f, cls)
            n += 1
            awaited = {}
            for ev in r.events('cvwait'):
                awaited.setdefault(ev['cv'], ev)
            if not awaited:
                ctx.oblige('reason', False, r.label, f['loc'], 'reports an awake reason without waiting')
                continue
            check_reasons(ctx, r, en, R)
            check_deadline(ctx, r)
    ctx.need(n, 12, 'waiting operations')


def check_reasons(ctx, r, en, R):
    sl = collect_sleeps(ctx, [r], keep_params=True)

    def step(ms, ev):
        hv, why, val = ms
        k = ev['k']
        if k == 'acquired':
            return [(ev['hv'], why, val)]
        if k == 'awake':
            return [(hv, ev['why'], val)]
        if k == 'cbcall' and ev.get('args') is not None:
            return None
        if k == 'exit':
            if ev['kind'] != 'return':
                return []
            v = exit_val(ev)
            if not v or v[0] != 'c':
                return [('!', 'reason', 'the reported reason is not determined by the path')]
            F = ev['facts']
            e = ('fld', en, hv)
            if v[1] == R['disabled']:
                if not entails(F, e, False):
                    return [('!', 'reason/disabled', 'reports disabled while the handler may be enabled')]
            elif v[1] == R['condition_met']:
                if not entails(F, e, True):
                    return [('!', 'reason/condition_met', 'reports that the condition is met while the handler may be disabled')]
                for s in sl:
                    if not s.conds_without(en) and not s.opaque:
                        continue
                    ng = not_awaited(s, en, ev['store'], hv)
                    if s.opaque or not ng:
                        continue
                    if assume_all(F, ng) is not None:
                        return [('!', 'reason/condition_met', 'reports that the condition is met where it was not seen to hold under the mutex')]
                if any(s.opaque for s in sl) and why != 'predicate':
                    return [('!', 'reason/condition_met', 'reports that the condition is met where the predicate was not seen to hold')]
            elif v[1] == R['timeout']:
                if why != 'timeout':
                    return [('!', 'reason/timeout', 'reports a timeout on a path where the time did not expire')]
                if not entails(F, e, True):
                    return [('!', 'reason/timeout', 'reports a timeout while the handler may be disabled')]
            else:
                return [('!', 'reason', 'unknown reason')]
            return []
        return None
    found = monitor(ctx, r, (None, None, None), step)
    if not found:
        ctx.oblige('reason', True, r.label, r.fn['loc'], '')
    for ru, msg, ev, tr in found:
        ctx.oblige(ru, False, r.label, ev['l'], msg, tr)


def Sleep_conds_without(self, en):
    return [(a, p) for a, p in self.conds if not any(x[0] == 'fld' and x[1] == en for x in symbols(a))]


Sleep.conds_without = Sleep_conds_without


def check_deadline(ctx, r):
    """A wait is bounded by the timeout given (unbounded when it is zero)."""
    tp = [p for p in r.fn['params'] if 'Duration_ms' in p['t'] or p['n'] == 'timeout']
    if not tp:
        ctx.oblige('deadline', True, r.label, r.fn['loc'], '')
        return
    name = tp[-1]['n']

    def is_t(s):
        return s[0] == 'fld' and s[1] == ('P', name) or s == ('p', name)
    ok = True
    for ev in r.events('cvwait'):
        ts = [s for a, p in ev['facts'] for s in symbols(a) if is_t(s)]
        finite = ev['timed'] and any(is_t(s) for s in symbols(ev.get('timeout') or ()))
        infinite = not ev['timed'] or 'max' in str(ev.get('timeout'))
        pos = None
        for s in ts:
            d = decide(('<', C0, s), ev['facts'])
            pos = d if d is not None else pos
            if d is None and decide(mk_cmp('==', s, C0), ev['facts']) is not None:
                pos = not decide(mk_cmp('==', s, C0), ev['facts'])
        if finite and pos is not False and pos is not None:
            good = True
        elif infinite and pos is False:
            good = True
        else:
            good = False
        if not good:
            ok = False
            ctx.oblige('deadline', False, r.label, ev['l'],
                       'a wait with %s timeout is %s' % ('positive' if pos else 'zero' if pos is False else 'unknown',
                                                         'bounded by something else' if not infinite and not finite else 'unbounded' if infinite else 'bounded'))
    if ok:
        ctx.oblige('deadline', True, r.label, r.fn['loc'], '')


# ------------------------------------------------------------------ W04
def quiesce_step(en, counts, muts, ms, ev):
    """state: (enabled known false, 0 none | 1 count seen zero | 2 zero seen and the waiters' mutex taken since)"""
    dis, q = ms
    k = ev['k']
    if k in ('write', 'xchg', 'atomic_write') and ev['path'] == en:
        if ev.get('val') == C0:
            dis = True
        else:
            dis, q = False, 0
    elif not dis and fact_about(ev['facts'], en) is False:
        dis = True
    if dis and q < 2 and any(known_zero(ev['facts'], c) for c in counts):
        q = 2 if any(holds_excl(ev, m) for m in muts) else max(q, 1)
    if dis and q == 1 and k == 'acquired' and ev['m'] in muts:
        q = 2
    return (dis, q)


def W04(ctx):
    n = 0
    for cls in wait_classes(ctx):
        en = enabled_path(ctx, cls)
        runs, sleeps = sleeps_of(ctx, cls)
        muts = {s.m for s in sleeps}
        cvs = {s.cv for s in sleeps}
        counts = count_path(ctx, cls, en)
        cname = ctx.short(cls)
        waiters = [r for r in runs if any(True for _ in r.events('cvwait'))]
        # the counter is the one the waiting operations maintain
        wr = set()
        for r in waiters:
            wr |= {ev['path'] for ev in r.events('write', 'xchg', 'atomic_write')}
        counts &= wr
        for f in ctx.method1(cls, 'blocking_disable'):
            r = ctx.run(f, cls)
            n += 1
            if not counts:
                ctx.oblige('waits-for-waiters', False, r.label, f['loc'], 'returns without waiting for the threads that wait in the handler')
                continue

            def step(ms, ev):
                ms = quiesce_step(en, counts, muts, ms, ev)
                if ev['k'] == 'exit':
                    if ms[1] == 0:
                        return [('!', 'waits-for-waiters', 'returns while threads may still be waiting in the handler')]
                    if ms[1] == 1:
                        return [('!', 'waits-for-waiters', 'returns while the last waiting thread may still hold the mutex of the handler')]
                    return []
                return [ms]
            report(ctx, r, 'waits-for-waiters', monitor(ctx, r, (False, 0), step))
            spin(ctx, r, counts, muts)
        for r in waiters:
            for c in counts:
                count_balance(ctx, r, c, cvs, muts)
        d = ctx.run_dtor(cls)
        need = cvs | muts | counts | {en}

        def dstep(ms, ev):
            ms = quiesce_step(en, counts, muts, ms[:2], ev) + (ms[2],)
            # nothing can start waiting again: a quiesced object stays so
            if ms[2]:
                ms = (True, 2, True)
            elif ms[1] == 2:
                ms = (True, 2, True)
            if ev['k'] == 'destroy_member' and ev['path'] in need and ms[1] < 2:
                return [('!', 'destroyed-while-waited', '%s is destroyed while threads may still be waiting in the handler' % fmt_path(ev['path']))]
            return [ms]
        report(ctx, d, 'destroyed-while-waited', monitor(ctx, d, (False, 0, False), dstep))
    ctx.need(n, 5, 'blocking_disable operations')


def report(ctx, r, rule, found, sample=None):
    if not found:
        ctx.oblige(rule, True, r.label, r.fn['loc'] if r.fn else None, '', sample=sample)
        return True
    for ru, msg, ev, tr in found:
        ctx.oblige(ru, False, r.label, ev['l'], msg, tr)
    return False


def sccs(g):
    """Strongly connected components of the exploded graph (as node -> id for non-trivial ones)."""
    n = len(g.succ)
    index = [0] * n
    low = [0] * n
    on = [False] * n
    stack = []
    comp = {}
    cnt = [1]
    cid = [0]
    for root in range(n):
        if index[root]:
            continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                index[v] = low[v] = cnt[0]
                cnt[0] += 1
                stack.append(v)
                on[v] = True
            rec = False
            su = g.succ[v]
            while i < len(su):
                w = su[i][1]
                i += 1
                if not index[w]:
                    work.append((v, i))
                    work.append((w, 0))
                    rec = True
                    break
                elif on[w]:
                    low[v] = min(low[v], index[w])
            if rec:
                continue
            if low[v] == index[v]:
                c = []
                while True:
                    w = stack.pop()
                    on[w] = False
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1 or any(m == v for _, m in g.succ[v]):
                    cid[0] += 1
                    for w in c:
                        comp[w] = cid[0]
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return comp


def spin(ctx, r, counts, muts):
    """While it waits for the count it leaves the waiters' mutex free at some point of every round."""
    comp = sccs(r.g)
    by = collections.defaultdict(list)
    for n, su in enumerate(r.g.succ):
        for ev, m in su:
            if ev is not None and n in comp and comp.get(m) == comp[n]:
                by[comp[n]].append(ev)
    for c, evs in by.items():
        if not any(ev['k'] == 'read' and ev['path'] in counts for ev in evs):
            continue
        ok = any(ev['k'] == 'asleep' for ev in evs) or any(not any(holds(ev, m) for m in muts) for ev in evs)
        ctx.oblige('spin-releases', ok, r.label, evs[0]['l'],
                   'waits for the waiting threads to leave while holding the mutex they need to leave')


def count_balance(ctx, r, c, cvs, muts):
    def step(ms, ev):
        d, left = ms
        k = ev['k']
        if k in ('write', 'xchg', 'atomic_write') and ev['path'] == c:
            (b1, o1), (b0, o0) = dom.lin(ev['val']), dom.lin(ev.get('old') or ('top',))
            if b1 != b0:
                return [('!', 'waiter-counted', 'the count of waiting threads is overwritten')]
            d2 = d + o1 - o0
            if d2 < 0 or d2 > 1:
                return [('!', 'waiter-counted', 'a waiting thread is counted %d times' % d2)]
            if not any(holds_excl(ev, m) for m in muts):
                return [('!', 'waiter-counted', 'the count of waiting threads changes without the mutex')]
            return [(d2, 1 if d2 == 0 else 0)]
        if k in ('cvwait', 'asleep') and ev.get('cv') in cvs and d != 1:
            return [('!', 'waiter-counted', 'a thread sleeps without being counted as waiting')]
        if k == 'release' and ev['m'] in muts and left == 1:
            return [(d, 2)]
        if left == 2 and r.fn['ret'].endswith('AwakeReason') and k in ('read', 'write', 'xchg', 'atomic_write', 'acquire', 'notify', 'cmut', 'cread') and \
                (ev.get('path') or ev.get('m') or ev.get('cv') or ('',))[0] == 'this':
            return [('!', 'waiter-counted', 'the handler is used after the thread was announced as gone and released the mutex')]
        if k == 'exit' and d != 0:
            return [('!', 'waiter-counted', 'returns while still counted as waiting: disabling and destruction block for ever')]
        return [(d, left)]
    report(ctx, r, 'waiter-counted', monitor(ctx, r, (0, 0), step))


# ------------------------------------------------------------------ W05 / W06
def rel_value(name, v, e):
    return {'wait_equal': mk_cmp('==', v, e), 'wait_greater_than': mk_cmp('<', e, v), 'wait_greater_equal_than': neg(mk_cmp('<', v, e)),
            'wait_lower_than': mk_cmp('<', v, e), 'wait_lower_equal_than': neg(mk_cmp('<', e, v))}[name]


def check_relation(ctx, r, rel, what, R, en):
    """rel(version-symbol-maker) -> condition; sleeps only while false (and enabled), condition_met only while true."""
    n = [0]

    def step(ms, ev):
        hv = ms
        k = ev['k']
        if k == 'acquired':
            return [ev['hv']]
        if k == 'cvwait':
            n[0] += 1
            st = ev['store']
            c = rel(lambda p: lookup(st, p, ev['hv']))
            if not entails(ev['facts'], truth(c), False):
                return [('!', 'relation', 'sleeps although %s may already hold' % what)]
        if k == 'exit' and ev['kind'] == 'return':
            v = exit_val(ev)
            if v == ('c', R['condition_met']):
                c = rel(lambda p: ('fld', p, hv))
                if not entails(ev['facts'], truth(c), True):
                    return [('!', 'relation', 'reports success although %s may not hold' % what)]
            return []
        return None
    if report(ctx, r, 'relation', monitor(ctx, r, None, step), sample='%s: sleeps iff not %s' % (r.label, what)):
        ctx.need(n[0], 1, 'sleeps of %s' % r.label)


def net_change(ctx, r, path, mut, want, rule, when=None):
    """Number and amount of changes of a field on every path: want(exit event) -> expected delta (None: unconstrained)."""
    def step(ms, ev):
        d, cnt, sec = ms
        k = ev['k']
        if k in ('write', 'xchg', 'atomic_write') and ev['path'] == path:
            if not any(holds_excl(ev, m) for m in mut):
                return [('!', rule, 'the value changes without holding the mutex')]
            (b1, o1), (b0, o0) = dom.lin(ev['val']), dom.lin(ev.get('old') or ('top',))
            if b1 != b0:
                return [('!', rule, 'the value is replaced instead of changed by one')]
            return [(max(-3, min(3, d + o1 - o0)), min(cnt + 1, 3), sec)]
        if k == 'exit':
            w = want(ev)
            if w is not None and d != w:
                return [('!', rule, 'the value changes by %d instead of %d' % (d, w))]
            return []
        return None
    report(ctx, r, rule, monitor(ctx, r, (0, 0, 0), step))


def W05(ctx):
    R = reasons(ctx)
    n = 0
    for cls in wait_classes(ctx, ['event::IntWaitHandler']):
        en = enabled_path(ctx, cls)
        val = value_path(ctx, cls)
        runs, sleeps = sleeps_of(ctx, cls)
        muts = {s.m for s in sleeps}
        for name in ('wait_equal', 'wait_greater_than', 'wait_greater_equal_than', 'wait_lower_than', 'wait_lower_equal_than'):
            for f in ctx.method1(cls, name):
                r = ctx.run(f, cls)
                p0 = f['params'][0]
                e = ('p', p0['n'] or 'arg0') if not p0.get('ref') else ('fld', ('P', p0['n'] or 'arg0'), 'k')
                check_relation(ctx, r, lambda at, e=e, name=name: rel_value(name, at(val), e), 'value %s expected' % name[5:].replace('_', ' '), R, en)
                n += 1
        for name, d in (('operator++', 1), ('operator--', -1)):
            for f in ctx.method1(cls, name):
                net_change(ctx, ctx.run(f, cls), val, muts, lambda ev, d=d: d, 'step-by-one')
                n += 1
        for r in runs:
            if r.fn['name'] not in ('operator++', 'operator--', 'set_value'):
                net_change(ctx, r, val, muts, lambda ev: 0, 'value-unchanged')
        set_exact(ctx, cls, val, muts)
    for cls in wait_classes(ctx, ['event::BooleanWaitHandler']):
        en = enabled_path(ctx, cls)
        val = getter_path(ctx, cls, 'is_open')
        runs, sleeps = sleeps_of(ctx, cls)
        muts = {s.m for s in sleeps}
        if val is None:
            ctx.oblige('is_open', False, ctx.short(cls), None, 'is_open() does not return the state of the handler')
            continue
        for f in ctx.method1(cls, 'wait'):
            check_relation(ctx, ctx.run(f, cls), lambda at: at(val), 'the handler is open', R, en)
            n += 1
        for name, d in (('open', C1), ('close', C0)):
            for f in ctx.method1(cls, name):
                assigned(ctx, ctx.run(f, cls), val, muts, d, name)
                n += 1
        for r in runs:
            if r.fn['name'] not in ('open', 'close'):
                net_change(ctx, r, val, muts, lambda ev: 0, 'value-unchanged')
    ctx.need(n, 10, 'operations of the integer and boolean handlers')


def assigned(ctx, r, path, muts, want, what):
    def step(ms, ev):
        if ev['k'] in ('write', 'xchg', 'atomic_write') and ev['path'] == path:
            if not any(holds_excl(ev, m) for m in muts):
                return [('!', 'set-value', 'the value changes without holding the mutex')]
            return ['set' if ev['val'] == want or decide(mk_cmp('==', ev['val'], want), ev['facts']) else 'other']
        if ev['k'] == 'exit' and ev['kind'] == 'return':
            if ms == 'set':
                return []
            if ms is None and known_eq(ev, path, want):
                return []
            return [('!', 'set-value', '%s does not leave the value asked for' % what)]
        return None
    report(ctx, r, 'set-value', monitor(ctx, r, None, step))


def known_eq(ev, path, want):
    for a, p in ev['facts']:
        for s in symbols(a):
            if s[0] == 'fld' and s[1] == path and decide(mk_cmp('==', s, want), ev['facts']):
                return True
            if s[0] == 'fld' and s[1] == path and want in (C0, C1) and decide(s, ev['facts']) == bool(want[1]):
                return True
    return False


def set_exact(ctx, cls, val, muts):
    for f in ctx.method1(cls, 'set_value', need=False):
        p0 = f['params'][0]
        want = ('p', p0['n'] or 'arg0')
        if p0.get('ref'):
            continue
        assigned(ctx, ctx.run(f, cls), val, muts, want, 'set_value')


def threshold_path(ctx, cls):
    """The field the counter's constructor initialises from its first argument."""
    for f in ctx.ctors(cls):
        if len(f['params']) < 2 or f['params'][0]['t'].startswith('const eprosima'):
            continue
        r = ctx.run(f, cls)
        for ev in r.events('init_member', 'write'):
            v = ev.get('val')
            if v == ('p', f['params'][0]['n']) and ev['path'][0] == 'this':
                return ev['path']
    return None


def W06(ctx):
    R = reasons(ctx)
    n = 0
    base = wait_classes(ctx, ['event::CounterWaitHandler'])
    for cls in base + wait_classes(ctx, ['event::ConsumerWaitHandler', 'event::DBQueueWaitHandler']):
        counter = cls in base
        en = enabled_path(ctx, cls)
        thr = threshold_path(ctx, base[0])
        if thr is None:
            raise AnalysisBroken('the threshold field of CounterWaitHandler is not initialised from its constructor argument')
        val = value_path(ctx, base[0])
        runs, sleeps = sleeps_of(ctx, cls)
        muts = {s.m for s in sleeps}
        const_thr(ctx, cls, thr, runs)

        def at_thr(at):
            v = at(thr)
            return ('fld', thr, 'k') if is_k(ctx, cls, thr) else v
        if counter:
            for f in ctx.method1(cls, 'wait_and_decrement'):
                r = ctx.run(f, cls)
                dec_only_met(ctx, r, val, thr, muts, R, lambda ev: exit_val(ev) == ('c', R['condition_met']))
                n += 1
            for f in ctx.method1(cls, 'wait_threshold_reached'):
                check_relation(ctx, ctx.run(f, cls), lambda at: mk_cmp('==', at(val), at_thr(at)), 'the threshold is reached', R, en)
                n += 1
            for f in ctx.method1(cls, 'operator++'):
                net_change(ctx, ctx.run(f, cls), val, muts, lambda ev: 1, 'counts-one')
                n += 1
        else:
            for f in ctx.method1(cls, 'consume'):
                r = ctx.run(f, cls)
                dec_only_met(ctx, r, val, thr, muts, R, lambda ev: ev['kind'] == 'return' or
                             not exc_named(ev, ('DisabledException', 'TimeoutException')))
                n += 1
            for f in ctx.method1(cls, 'produce'):
                net_change(ctx, ctx.run(f, cls), val, muts, lambda ev: 1 if ev['kind'] == 'return' else None, 'counts-one')
                n += 1
        for r in runs:
            if r.fn['name'] not in ('operator++', 'wait_and_decrement', 'consume', 'produce', 'set_value'):
                net_change(ctx, r, val, muts, lambda ev: 0, 'value-unchanged')
    ctx.need(n, 12, 'operations of the counters')


def exc_named(ev, names):
    e = ev.get('exc')
    return bool(e) and str(e[1]).split('::')[-1] in names


def is_k(ctx, cls, path):
    o = ctx.p.field(cls, path[-1])
    if o is None:
        return False
    f = o[1] if isinstance(o, tuple) else o
    return f['t'].startswith('const ')


def const_thr(ctx, cls, thr, runs):
    bad = [(r, ev) for r in runs for ev in r.events('write', 'xchg', 'atomic_write') if ev['path'] == thr]
    ctx.oblige('threshold-constant', not bad, ctx.short(cls), bad[0][1]['l'] if bad else None, 'the threshold changes after construction')


def dec_only_met(ctx, r, val, thr, muts, R, met):
    """The value drops by exactly one when the wait succeeds, in the critical section that saw it above the threshold."""
    def step(ms, ev):
        d = ms
        k = ev['k']
        if k in ('write', 'xchg', 'atomic_write') and ev['path'] == val:
            if not any(holds_excl(ev, m) for m in muts):
                return [('!', 'consumes-one', 'the value changes without holding the mutex')]
            (b1, o1), (b0, o0) = dom.lin(ev['val']), dom.lin(ev.get('old') or ('top',))
            if b1 != b0:
                return [('!', 'consumes-one', 'the value is replaced')]
            above = False
            for s in symbols(ev['old']):
                if s[0] == 'fld' and s[1] == val:
                    for a, p in ev['facts']:
                        for t in symbols(a):
                            if t[0] == 'fld' and t[1] == thr and decide(('<', t, ev['old']), ev['facts']):
                                above = True
            if o1 < o0 and not above:
                return [('!', 'consumes-one', 'the value is decremented where it was not seen above the threshold in the same critical section')]
            return [max(-3, min(3, d + o1 - o0))]
        if k == 'exit':
            w = -1 if met(ev) else 0
            if d != w:
                return [('!', 'consumes-one', 'the value changes by %d instead of %d %s' % (d, w, 'when the wait succeeds' if w else 'when the wait fails'))]
            return []
        return None
    report(ctx, r, 'consumes-one', monitor(ctx, r, 0, step))


# ------------------------------------------------------------------ W07
def content(path):
    return path


def is_container_path(p, kinds=None):
    return p and p[0] in ('this', 'g')


def W07(ctx):
    R = reasons(ctx)
    n = 0
    for cls in wait_classes(ctx, ['event::DBQueueWaitHandler', 'event::ConsumerWaitHandler']):
        en = enabled_path(ctx, cls)
        base = wait_classes(ctx, ['event::CounterWaitHandler'])[0]
        val = value_path(ctx, base)
        abstract = any(ctx.p.records[cls]['q'].startswith(NS + 'event::ConsumerWaitHandler') for _ in (0,))

        def kind(ev):
            if abstract:
                if ev['k'] == 'call':
                    if str(ev.get('q') or ev.get('name')).endswith('::add_value_'):
                        return 'add'
                    if str(ev.get('q') or ev.get('name')).endswith('::get_next_value_'):
                        return 'take'
                return None
            if ev['k'] == 'elem' and (ev.get('path') or ('',))[0] == 'this' or ev['k'] == 'cread' and ev['path'][0] == 'this' and ev['name'] in ('front', 'back'):
                return 'read'
            if ev['k'] == 'cmut' and ev['path'][0] == 'this':
                if ev['name'] in ('push', 'push_back', 'emplace', 'emplace_back', 'push_front', 'emplace_front'):
                    return 'add'
                if ev['name'] in ('pop', 'pop_front', 'pop_back'):
                    return 'take'
            return None
        for f in ctx.method1(cls, 'produce', need=False):
            r = ctx.run(f, cls)
            n += 1

            def step(ms, ev):
                added, counted = ms
                kd = kind(ev)
                if kd == 'add':
                    if added:
                        return [('!', 'produce-once', 'one produced element is stored twice')]
                    a = [x for x in ev.get('args') or ()]
                    return [(1, counted)]
                if kd == 'take':
                    return [('!', 'produce-once', 'producing removes an element')]
                if ev['k'] in ('write', 'xchg', 'atomic_write') and ev['path'] == val:
                    if not added:
                        return [('!', 'produce-before-count', 'an element is announced before it is stored: a consumer finds nothing')]
                    return [(added, min(counted + 1, 3))]
                if ev['k'] == 'exit':
                    if ev['kind'] == 'return' and (added, counted) != (1, 1):
                        return [('!', 'produce-once', 'an element is stored %d time(s) and announced %d time(s)' % (added, counted))]
                    return []
                return None
            report(ctx, r, 'produce-once', monitor(ctx, r, (0, 0), step))
        for f in ctx.method1(cls, 'consume', need=False):
            r = ctx.run(f, cls)
            n += 1

            def step(ms, ev):
                dec, taken, why, read = ms
                kd = kind(ev)
                if ev['k'] == 'awake':
                    return [(dec, taken, ev['why'], read)]
                if kd == 'read':
                    return [(dec, taken, why, True)]
                if kd == 'add':
                    return [('!', 'consume-once', 'consuming stores an element')]
                if kd == 'take':
                    if not abstract and not read:
                        # emptying a container: the fifo rule decides that nothing is lost
                        return None
                    if not dec:
                        return [('!', 'consume-after-count', 'an element is taken before it was reserved by the count')]
                    return [(dec, min(taken + 1, 3), why, False)]
                if ev['k'] in ('write', 'xchg', 'atomic_write') and ev['path'] == val:
                    return [(min(dec + 1, 3), taken, why, read)]
                if ev['k'] == 'exit':
                    if ev['kind'] == 'return':
                        if (dec, taken) != (1, 1):
                            return [('!', 'consume-once', 'a consumer returns having reserved %d and taken %d element(s)' % (dec, taken))]
                    elif exc_named(ev, ('DisabledException',)):
                        if dec or taken:
                            return [('!', 'consume-exception', 'an element is lost when the consumer is told the handler is disabled')]
                        if fact_about(ev['facts'], en) is not False:
                            return [('!', 'consume-exception', 'a consumer is told the handler is disabled while it may be enabled')]
                    elif exc_named(ev, ('TimeoutException',)):
                        if dec or taken:
                            return [('!', 'consume-exception', 'an element is lost when the consumer is told that time expired')]
                        if why != 'timeout' or fact_about(ev['facts'], en) is not True:
                            return [('!', 'consume-exception', 'a consumer is told that time expired when it did not')]
                    return []
                return None
            report(ctx, r, 'consume-once', monitor(ctx, r, (0, 0, None, False), step))
        for f in ctx.method1(cls, 'elements_ready_to_consume', need=False):
            r = ctx.run(f, cls)
            ok = all(exit_val(ev) and exit_val(ev)[0] == 'fld' and exit_val(ev)[1] == val for ev in r.events('exit'))
            ctx.oblige('ready-count', ok, r.label, f['loc'], 'does not report the number of elements announced and not consumed')
            n += 1
        if not abstract:
            fifo(ctx, cls)
    ctx.need(n, 10, 'operations of consumer handlers')


def size_facts(facts):
    """container content path -> empty? according to facts"""
    out = {}
    for a, p in facts:
        if a[0] == '==' and a[1] == C0 and a[2][0] == 'size' and a[2][1][0] == 'fld':
            out[a[2][1][1]] = p
        elif a[0] == '<' and a[1] == C0 and a[2][0] == 'size' and a[2][1][0] == 'fld':
            out[a[2][1][1]] = not p
    return out


def fifo(ctx, cls):
    """Consumers take from the front what they saw there under one lock; unread elements are never discarded."""
    for f in ctx.method1(cls, 'consume'):
        r = ctx.run(f, cls)
        fg = {ev['path'] for ev in r.events('cmut') if ev['name'] in ('pop', 'pop_front') and ev['path'][0] == 'this'}
        ctx.need(len(fg), 1, 'containers consumed from')
        bad = [ev for ev in r.events('cmut') if ev['name'] == 'pop_back' and ev['path'][0] == 'this']
        ctx.oblige('fifo', not bad, r.label, bad[0]['l'] if bad else f['loc'], 'elements are taken from the back')

        def step(ms, ev):
            locks, status, seen, got, moved = ms
            k = ev['k']
            for p, e in size_facts(ev['facts']).items():
                if p in fg and seen:
                    n2 = 'empty' if e else 'full'
                    if status and status != n2:
                        return []       # contradicts what is known of the same elements
                    status = n2
            if k == 'cread' and ev['path'] in fg and ev['name'] in ('empty', 'size'):
                if status == 'empty':
                    return [(locks, status, True, got, moved)]
                return [(frozenset(x[0] for x in ev['locks']), None, True, None, moved)]
            if k == 'acquired':
                return [(locks, None, False, None, False)] if moved else [(locks, status, seen, got, moved)]
            if k == 'release':
                locks = locks - {ev['m']}
                if not locks:
                    return [(locks, None, False, None, False)]
                return [(locks, status, seen, got, moved)]
            if k == 'write' and any(ev['path'] == p[:-1] for p in fg):
                return [(locks, status, seen, got, True)]
            if k == 'elem' and ev.get('path') in fg or k == 'cread' and ev['path'] in fg and ev['name'] == 'front':
                if status != 'full':
                    return [('!', 'fifo', 'the front is read where the queue was not seen non-empty under the same lock')]
                return [(locks, status, seen, 'front', moved)]
            if k == 'cmut' and ev['path'] in fg and ev['name'] in ('pop', 'pop_front'):
                if status == 'empty':
                    return []
                if got != 'front':
                    return [('!', 'fifo', 'an element is removed without having been read under the same lock')]
                return [(locks, None, False, None, moved)]
            if k in ('write', 'cmut') and ev['path'] in fg and (ev.get('mutate') or ev.get('name')) in ('swap', 'clear', 'assign', 'operator='):
                if status != 'empty':
                    return [('!', 'fifo', 'elements not consumed yet are discarded')]
                return [(locks, status, seen, None, moved)]
            if k == 'exit':
                return []
            return [(locks, status, seen, got, moved)]
        report(ctx, r, 'fifo', monitor(ctx, r, (frozenset(), None, False, None, False), step))


# ------------------------------------------------------------------ W08
def W08(ctx):
    n = 0
    for cls in wait_classes(ctx, ['event::DBQueue']):
        runs = ctx.entry_runs(cls)
        cname = ctx.short(cls)
        pop = {ev['path'] for f in ctx.method1(cls, 'pop', need=False) for ev in ctx.run(f, cls).events('cmut') if ev['path'][0] == 'this'}
        push = {ev['path'] for f in ctx.method1(cls, 'push', need=False) for ev in ctx.run(f, cls).events('cmut') if ev['path'][0] == 'this'}
        if len(pop) != 1 or len(push) != 1:
            ctx.oblige('ends', False, cname, None, 'elements are pushed to %d and popped from %d containers' % (len(push), len(pop)))
            continue
        fg, bg = next(iter(pop)), next(iter(push))
        ctx.oblige('ends', fg != bg, cname, None, 'pushing and popping use the same container')
        # which mutex every access to an end holds
        guard = {}
        for end in (fg, bg):
            common = None
            where = None
            for r in runs:
                for ev in r.events('read', 'write', 'cread', 'cmut', 'elem'):
                    p = ev.get('path')
                    if p is None or p[:len(end)] != end and p != end[:-1]:
                        continue
                    if '[]' in p:
                        continue
                    n += 1
                    ls = frozenset(x[0] for x in ev['locks'])
                    nxt = ls if common is None else common & ls
                    if common is not None and not nxt and common:
                        where = (r, ev)
                    common = nxt
            guard[end] = common
            ctx.oblige('end-guarded', bool(common), where[0].label if where else cname, where[1]['l'] if where else None,
                       '%s is used without the mutex the other operations hold' % fmt_path(end))
        for r in runs:
            for ev in r.events('cmut'):
                if ev['path'] == bg and ev['name'] in ('pop', 'pop_front', 'pop_back') or ev['path'] == fg and ev['name'] in ('push', 'emplace', 'push_back'):
                    ctx.oblige('ends', False, r.label, ev['l'], 'the wrong end of the queue is changed')
        for f in ctx.method1(cls, 'push', need=False):
            r = ctx.run(f, cls)

            def step(ms, ev):
                if ev['k'] == 'cmut' and ev['path'] == bg:
                    a = (ev.get('refs') or (None,))[0] or (ev.get('args') or (None,))[0]
                    if not mentions_param(a, f):
                        return [('!', 'push-once', 'something else than the given element is stored')]
                    return [min(ms + 1, 2)]
                if ev['k'] == 'exit' and ev['kind'] == 'return':
                    return [] if ms == 1 else [('!', 'push-once', 'the element is stored %d times' % ms)]
                return None
            report(ctx, r, 'push-once', monitor(ctx, r, 0, step))
        for name in ('front', 'front_and_pop'):
            for f in ctx.method1(cls, name, need=False):
                r = ctx.run(f, cls)
                pops = 1 if name == 'front_and_pop' else 0

                def step(ms, ev):
                    read, popped = ms
                    if ev['k'] == 'elem' and ev.get('name') == 'front':
                        if popped:
                            return [('!', 'front', 'the front is read after the element was removed')]
                        return [(True, popped)]
                    if ev['k'] == 'elem':
                        return [('!', 'front', 'another element than the front is handed out')]
                    if ev['k'] == 'read' and popped and '[]' in ev['path']:
                        return [('!', 'front', 'the element is read after it was removed')]
                    if ev['k'] == 'cmut' and ev['path'] == fg and ev['name'] in ('pop', 'pop_front'):
                        return [(read, min(popped + 1, 2))]
                    if ev['k'] == 'exit' and ev['kind'] == 'return':
                        if not read:
                            return [('!', 'front', 'the front is not what is handed out')]
                        if popped != pops:
                            return [('!', 'front', 'removes %d elements' % popped)]
                        return []
                    return None
                report(ctx, r, 'front', monitor(ctx, r, (False, 0), step))
        for f in ctx.method1(cls, 'pop', need=False):
            r = ctx.run(f, cls)

            def step(ms, ev):
                if ev['k'] == 'cmut' and ev['path'] == fg:
                    return [min(ms + 1, 2)]
                if ev['k'] == 'exit' and ev['kind'] == 'return':
                    return [] if ms == 1 else [('!', 'pop-once', 'removes %d elements' % ms)]
                return None
            report(ctx, r, 'pop-once', monitor(ctx, r, 0, step))
        for f in ctx.method1(cls, 'swap', need=False):
            swap_rule(ctx, ctx.run(f, cls), fg, bg, guard)
        for name, what in (('empty', {fg}), ('size', {fg}), ('both_empty', {fg, bg})):
            for f in ctx.method1(cls, name, need=False):
                r = ctx.run(f, cls)
                got = {ev['path'] for ev in r.events('cread') if ev['path'] in (fg, bg)}
                ctx.oblige('reports', got == what, r.label, f['loc'], 'does not report on the right part of the queue')
        for f in ctx.method1(cls, 'clear', need=False):
            r = ctx.run(f, cls)

            def step(ms, ev):
                if ev['k'] == 'write' and ev['path'] in (fg, bg) and (ev['val'] == ('emptyc',) or ev.get('mutate') == 'clear'):
                    return [ms | {ev['path']}]
                if ev['k'] == 'exit' and ev['kind'] == 'return':
                    return [] if ms == {fg, bg} else [('!', 'clear', 'elements remain after clearing')]
                return None
            report(ctx, r, 'clear', monitor(ctx, r, frozenset(), step))
    ctx.need(n, 20, 'accesses to the double queue')


def mentions_param(a, f):
    names = {p['n'] for p in f['params']}

    def w(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] in ('P', 'p') and x[1] in names:
                return True
            return any(w(y) for y in x)
        return False
    return w(a)


def is_empty(v, facts):
    """The container value is known to hold no element."""
    if v is None:
        return False
    if v == ('emptyc',):
        return True
    sz = ('size', v)
    return decide(mk_cmp('==', C0, sz), facts) is True or decide(('<', C0, sz), facts) is False


def swap_rule(ctx, r, fg, bg, guard):
    """swap exchanges the ends and leaves the new pushing end empty, in one critical section of both guards."""
    ptr = fg[-1] == '*'
    gs = [sorted(g)[0] for g in guard.values() if g]

    def target(v):
        if v is not None and v[0] == 'fld':
            return v[1] + ('*',)
        return v[1] if v is not None and v[0] == 'ref' else None

    def step(ms, ev):
        touched, left = ms
        if ev['k'] in ('write', 'cmut') and ev.get('path') in (fg, bg, fg[:-1] if ptr else None, bg[:-1] if ptr else None):
            p = ev['path']
            if p == bg and ptr:
                return [('!', 'swap', 'the elements pushed are changed')]
            if left:
                return [('!', 'swap', 'the exchange is split over two critical sections')]
            if not all(holds_excl(ev, m) for m in gs):
                return [('!', 'swap', 'the ends are exchanged without both mutexes')]
            return [(True, left)]
        if ev['k'] == 'release' and touched and ev['m'] in gs:
            st = ev['store']
            if ptr:
                if (target(st.get(fg[:-1])), target(st.get(bg[:-1]))) != (bg, fg):
                    return [('!', 'swap', 'the two ends are not exchanged when a mutex is released')]
                if not is_empty(st.get(fg), ev['facts']):
                    return [('!', 'swap', 'elements already consumed are still there when a mutex is released')]
            return [(touched, True)]
        if ev['k'] == 'exit' and ev['kind'] == 'return':
            return [] if touched and left else [('!', 'swap', 'the two ends are not exchanged')]
        return None
    report(ctx, r, 'swap', monitor(ctx, r, (False, False), step))
