#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current source by static analysis (see DESIGN.md).
Exit 0: the property held on everything analysed.  Exit 1: VIOLATION lines name the construct.
"""
import argparse, json, os, re, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'absint'))
import prog, diff, suite, attribution, rules, plan


def known():
    out = []
    p = os.path.join(prog.VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '): out.append(json.loads(l[len('finding: '):]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--dump', help='reuse dumps in this directory (development only)')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    srcs = {'code': prog.REPO, 'ref': os.path.join(prog.VERIF, 'reference')}
    if a.dump and os.path.exists(os.path.join(a.dump, 'code.json')):
        d = {k: json.load(open(os.path.join(a.dump, k + '.json'))) for k in srcs}
    else: d = prog.dump(srcs, a.dump)
    t_build = time.time() - t0
    A = suite.A = diff.Analysis(prog.Merged(d['code'], d['ref']))
    out = plan.decide(A, pid, a.tier)
    report(pid, a.tier, out, t0, t_build, A)


def report(pid, tier, out, t0, t_build, A):
    kn = [k for k in known() if k['property'] == pid]
    fresh = []; seen = []
    for v in out['violations']:
        k = next((k for k in kn if k['construct'] == v['construct'] and k['what'] == v['what']), None)
        if k is not None: seen.append((k, v))
        else: fresh.append(v)
    for k in {id(k): k for k, _ in seen}.values():
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k['construct'], k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': out['coverage'], 'assumptions': plan.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}
    ev['coverage']['build_s'] = round(t_build, 1)
    os.makedirs(os.path.join(prog.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(prog.VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if out.get('error'):
        print('ERROR: ' + out['error']); sys.exit(2)
    if not fresh:
        print('ok property=%s tier=%s %s wall=%.0fs' % (pid, tier, out['summary'], time.time() - t0)); sys.exit(0)
    rp = os.path.join('evidence', '%s.violations.txt' % pid)
    with open(os.path.join(prog.VERIF, rp), 'w') as f:
        for v in fresh: f.write(json.dumps(v, indent=1) + '\n')
    for v in fresh[:20]:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  at %s (%s): %s' % (v['construct'], v.get('loc', ''), v['what']))
        for l in v.get('detail', [])[:8]: print('    ' + l[:400])
    sys.exit(1)


if __name__ == '__main__': main()
