"""Which analyses decide which property, and how their results become verdicts."""
import re, attribution, rules, suite
from models import short

ASSUMPTIONS = [
    'the reference model /verif/reference (audited, versioned with the checks) states the documented behaviour',
    'summaries of std, bumpalo, arrayvec and smallvec operations in absint/models.py and absint/stdmodels.py',
    'the MIR of the pinned nightly compiler represents the source (debug profile: overflow checks on)',
    'functions delimiting a unit change nodes only through handles they are given, and restore the nesting depth when they succeed',
    'loops are followed to the unrolling depth reported per unit; longer repetitions are covered by the loop rules only',
]

# properties any unit of the demangler can violate
GLOBAL = {'C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C26', 'C12', 'C13'}
PRINT = {'C09', 'C10', 'C19', 'C20'}


def units_for(A, pid):
    us = []
    for n in sorted(A.cutnames):
        printer = attribution.is_printer(n)
        t = attribution.topics(n)
        if pid in t or pid in GLOBAL - {'C08', 'C26', 'C12', 'C13', 'C04', 'C03'}: us.append(n)
        elif pid in ('C03', 'C04', 'C05', 'C08', 'C26', 'C12', 'C13') and not printer: us.append(n)
        elif pid == 'C03': us.append(n)
        elif pid in PRINT and printer: us.append(n)
        elif pid == 'C08' and not printer: us.append(n)
    if pid == 'C17':
        # whoever reads a number
        cs = suite.callers_of(A.cutnames)
        for n in sorted(A.cutnames):
            if re.search(r'::demangle_(number|unsigned|signed)$', n): us += sorted(cs.get(n, set()) - set(us))
    for n in sorted(A.extranames | A.lownames):
        if pid in ('C01', 'C02') or pid in attribution.topics(n) or pid == 'C07' and n in A.extranames: us.append(n)
    return us


def decide(A, pid, tier):
    names = units_for(A, pid)
    tasks = [(n, frozenset(), n in A.lownames, tier, 60) for n in names]
    res = suite.run_tasks(tasks)
    crashed = [r for r in res if 'crash' in r]
    res = [r for r in res if 'crash' not in r]
    relevant = []
    for r in res:
        for m in r['mismatches']: m['props'] = sorted(attribution.properties(r['unit'], m, r['mismatches']))
        if r['swallowed'] or any(pid in m['props'] for m in r['mismatches']): relevant.append(r)
    cleared, again = ({}, [])
    if relevant:
        # every differing unit counts for the explanation, not only the ones relevant to this property
        cleared, again = suite.explain(everything(A, res, tier), tier)
        if any(r['unit'] in A.lownames for r in relevant): cleared = {**cleared, **suite.explain_low(relevant, cleared, tier)}
    V = []
    for r in res:
        if r['unit'] in cleared: continue
        ms = [m for m in r['mismatches'] if pid in m['props']]
        if ms:
            m = min(ms, key=lambda m: len(m['path']))
            V.append({'construct': r['unit'], 'loc': r['loc'], 'what': what(m),
                      'detail': ['on paths where: ' + '; '.join(m['path'][:20])] +
                                ['%s: documented %s' % (k, m['ref'].get(k)) for k in m['keys']][:3] +
                                ['%s: analysed   %s' % (k, m['code'].get(k)) for k in m['keys']][:3] +
                                ['%d differing paths of %d' % (len(ms), r['pairs'])]})
        if pid == 'C07':
            for s in r['swallowed'][:3]:
                V.append({'construct': r['unit'], 'loc': s['site'], 'what': 'a failure at %s does not make the function fail' % s['site'],
                          'detail': ['on paths where: ' + '; '.join(s['path'][:20])]})
    rv, rcov = rules.run(A, pid, tier, res)
    V += rv
    cov = coverage(A, pid, res, crashed, cleared, rcov)
    out = {'violations': V, 'coverage': cov,
           'summary': 'units=%d paths=%d comparisons=%d undecided=%d rules=%s' % (
               len(res), sum(r['leaves'] for r in res), sum(r['pairs'] for r in res),
               sum(v for r in res for _, v in r['unsup']), ','.join(sorted(rcov)) or '-')}
    return out


def everything(A, res, tier):
    have = {r['unit'] for r in res}
    rest = [(n, frozenset(), False, tier, 1) for n in sorted(A.cutnames) if n not in have]
    return res + [r for r in suite.run_tasks(rest) if 'crash' not in r]


def what(m):
    t = set(m['tags'])
    if 'ub' in t: return 'can perform an unsafe operation outside its precondition'
    if 'panic' in t: return 'can panic where the documented behaviour does not'
    if 'diverge' in t: return 'can repeat for ever without progress'
    if 'accept' in t: return 'succeeds where the documented behaviour is an error'
    if 'reject' in t: return 'fails where the documented behaviour succeeds'
    d = {'text': 'different text', 'space': 'different spacing', 'order': 'different order of parts', 'brackets': 'different brackets',
         'value': 'different result', 'cursor': 'different amount of input consumed', 'names': 'different memorized names',
         'params': 'different memorized parameters', 'depth': 'nesting depth not restored', 'node': 'different change to a node', 'state': 'different state', 'nodes': 'fewer nodes counted'}
    return ', '.join(d[x] for x in d if x in t) or 'different behaviour'


def coverage(A, pid, res, crashed, cleared, rcov):
    fns = sorted({f for r in res for f in r['fns']})
    ob = sum(len(r['obligations']) for r in res)
    und = [(r['unit'], k, v) for r in res for k, v in r['unsup']]
    return {'explanation': 'Static analysis of the type-checked MIR built from /repo: every path of each listed function (up to the unrolling '
                           'depth) is summarised over interval/bit/linear abstract domains with calls to the other listed functions as '
                           'uninterpreted operations, and compared with the summary of the reference model under the same path condition; '
                           'plus the rules listed.',
            'functions_compared': len(res), 'functions_analysed': len(fns), 'paths_summarised': sum(r['leaves'] for r in res),
            'path_pairs_compared': sum(r['pairs'] for r in res), 'failure_paths_checked': sum(r['failing'] for r in res),
            'functions_same_as_reference': sum(1 for r in res if r['same']),
            'basic_blocks_visited': sum(r['blocks'] for r in res), 'checked_operations': ob,
            'paths_cut_at_loop_bound': sum(r['bounded'] for r in res),
            'pending_paths_beyond_limit': sum(r['truncated'] for r in res),
            'unrolling': {r['unit'][-60:]: 'every course of %d rounds%s' % (r['unroll'], ', the same course repeated up to %d rounds' % r['rounds'] if r['rounds'] else '')
                          for r in res if r['bounded']},
            'undecided': [{'unit': u[-80:], 'why': k, 'paths': v} for u, k, v in und][:40],
            'not_analysed': [{'unit': r['unit'], 'why': r['crash'][:300]} for r in crashed],
            'differences_explained': cleared, 'rules': rcov,
            'units': [r['unit'][-100:] for r in res], 'samples': fns[:5]}
