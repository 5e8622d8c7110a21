#!/usr/bin/env python3
"""Decide one property from /repo's current source.  usage: check.py PROPERTY [--tier quick|thorough]"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.dont_write_bytecode = True


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f):
                if e.get('status') == 'finding':
                    out.setdefault(e['property'], []).append(e)
    return out


def matches(e, v):
    return e['rule'] == v.rule and e['where'] == v.where and e['message'] == v.msg



def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    import rules
    from facts import AnalysisBroken
    from lib import Ctx
    spec = rules.RULES[pid]
    total = None
    try:
        configs = ['release'] + (['debug'] if tier == 'thorough' and spec.get('cpp', True) else [])
        ctxs = []
        for c in configs:
            prog = None
            if spec.get('cpp', True):
                from facts import Prog
                prog = Prog(c)
            ctx = Ctx(prog, tier)
            spec['fn'](ctx)
            for msg in rules.selftest(pid, ctx):
                raise AnalysisBroken('self-test: ' + msg)
            ctxs.append((c, ctx))
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    viol = {}
    for c, ctx in ctxs:
        for k, v in ctx.viol.items():
            viol.setdefault(k, v)
    kf = known().get(pid, [])
    fresh = []
    for v in viol.values():
        e = next((e for e in kf if matches(e, v)), None)
        if e is not None:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
        else:
            fresh.append(v)
    obl = {}
    ok = {}
    for c, ctx in ctxs:
        for k, n in ctx.obl.items():
            obl[k] = obl.get(k, 0) + n
        for k, n in ctx.okc.items():
            ok[k] = ok.get(k, 0) + n
    fns = set()
    for c, ctx in ctxs:
        fns |= ctx.functions
    cov = {
        'explanation': spec['how'],
        'rule': spec['rule'],
        'obligations': sum(obl.values()),
        'discharged': sum(ok.values()),
        'obligations_by_rule': obl,
        'entry_points_analysed': sum(x.entries for _, x in ctxs),
        'functions_analysed': len(fns),
        'graph_nodes': sum(x.nodes for _, x in ctxs),
        'graph_edges': sum(x.edges for _, x in ctxs),
        'configurations': [c for c, _ in ctxs],
        'samples': ctxs[0][1].samples[:12],
        'notes': ctxs[0][1].notes[:20],
    }
    if spec.get('cpp', True):
        cov['translation_units_parsed'] = len(ctxs[0][1].p.tus)
        cov['program_functions_resolved'] = len(ctxs[0][1].p.functions)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': rules.ASSUMPTIONS + spec.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d.tmp' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    print('%s: %d obligations, %d discharged, %d entry points, %d functions, %d graph nodes, %.1fs' % (
        pid, cov['obligations'], cov['discharged'], cov['entry_points_analysed'], cov['functions_analysed'], cov['graph_nodes'], ev['wall_s']))
    if not fresh:
        return 0
    rp = os.path.join(HERE, 'evidence', '%s.violation.txt' % pid)
    with open(rp, 'w') as f:
        for v in fresh:
            f.write('property %s\nrule %s\nin %s\nat %s\n%s\n' % (pid, v.rule, v.where, v.loc, v.msg))
            for s in v.path:
                f.write('    %s\n' % s)
            f.write('\n')
    for v in fresh[:12]:
        print('%s: [%s] %s: %s' % (v.loc, v.rule, v.where, v.msg))
        for s in v.path[-14:]:
            print('      ' + s)
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main())
