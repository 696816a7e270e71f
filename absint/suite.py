"""Runs the units of the comparison in parallel, explains differences that cancel out across a
unit boundary, and condenses results into plain records."""
import multiprocessing as mp, os, re, signal, time
import diff
from models import short

A = None          # the analysis, inherited by forked workers
DEEPBAD = set()   # units whose difference shows only after many rounds of a loop


class Opts:
    def __init__(self, tier):
        self.tier = tier
        self.deadline = 70 if tier == 'quick' else 240
        self.max_paths = 14000 if tier == 'quick' else 40000
        self.unrolls = (2, 4) if tier == 'quick' else (2, 4, 6)


def run_one(name, uncut=frozenset(), low=False, opts=None, limit=None, unrolls=None):
    """analyse one unit with as much loop unrolling as is affordable"""
    best = None; t0 = time.time()
    plan = list(unrolls or opts.unrolls)
    k = 0
    # code that is the same as the reference cannot differ from it: in the quick tier it is summarised only
    # as far as is cheap (for the rules about single paths); the thorough tier does not make this distinction
    same = not uncut and A.identical(name)
    lim = (1500, 10) if same and opts.tier == 'quick' else (opts.max_paths, opts.deadline)
    first = None
    if not low and not (same and opts.tier == 'quick') and A.loops(name):
        # the first round of every loop and the part of the second that follows without further input
        A.unroll = 0; A.max_paths = lim[0]; A.deadline = t0 + lim[1] / 2
        first = A.run_unit(name, uncut, low, limit, grace=True)
        if first.mismatches: lim = (lim[0], min(lim[1], time.time() - t0 + 20))
    while True:
        A.unroll = plan[k]; A.max_paths = lim[0]; A.deadline = t0 + lim[1]
        r = A.run_unit(name, uncut, low, limit)
        r.unroll = plan[k]
        if best is not None and r.truncated and not r.mismatches: break
        best = r
        if r.mismatches or r.truncated: break
        if k + 1 >= len(plan) or not r.bounded: break
        # deeper only where it is cheap
        some, secs = (2500, 20) if opts.tier != 'quick' else (250, 1.0) if same else (600, 8)
        if r.leaves + r.pairs > some or time.time() - t0 > secs: break
        k += 1
    best.deep = 0; best.viadeep = False; best.viagrace = False
    if first is not None:
        best.pairs += first.pairs; best.leaves += first.leaves
        if first.mismatches and not best.mismatches:
            best.mismatches = first.mismatches; best.eng = first.eng; best.m = first.m; best.viagrace = True
        for k, v in first.obligations.items(): best.obligations.setdefault(k, v)
    if best.bounded and not best.mismatches and (not uncut or uncut & DEEPBAD) and not (same and opts.tier == 'quick'):
        # many rounds of the same kind
        quick = opts.tier == 'quick'
        A.unroll = 0 if best.truncated else 1; A.max_paths = 8000 if quick else 20000; A.deadline = time.time() + (25 if quick else 60)
        d = A.run_unit(name, uncut, low, limit, 70 if quick else 140)
        best.deep = d.rounds; best.chains = d.chains
        best.mismatches = d.mismatches; best.pairs += d.pairs; best.leaves += d.leaves
        best.unsup = {**best.unsup, **d.unsup}
        for k, v in d.obligations.items(): best.obligations.setdefault(k, v)
        if d.mismatches: best.eng = d.eng; best.m = d.m; best.viadeep = True
    best.t = time.time() - t0; best.same = same
    return best


def condense(r, uncut):
    """a plain, picklable record of a unit's result"""
    f = r.f
    out = {'unit': r.name, 'loc': f['loc'], 'path': f['path'], 'uncut': sorted(uncut), 'leaves': r.leaves, 'pairs': r.pairs,
           'bounded': r.bounded, 'failing': r.failing, 'truncated': r.truncated, 'unroll': r.unroll, 'viadeep': r.viadeep, 'viagrace': r.viagrace, 'rounds': r.deep, 'same': r.same, 't': round(r.t, 2),
           'fns': sorted({A.p.fns[i]['name'] for i in r.fns if A.p.fns[i]['local'] and A.p.side[i] == 'code'}),
           'blocks': r.blocks, 'unsup': [(str(k)[:300], v) for k, v in r.unsup.items()],
           'havocked': sorted(r.havocked), 'havoc_ref': sorted(r.havoc_ref),
           'obligations': [(list(k), list(v)) for k, v in r.obligations.items()],
           'mismatches': [describe(m, r) for m in r.mismatches[:60]], 'nmismatch': len(r.mismatches),
           'diverging': [{'site': l.outcome[1], 'sure': l.outcome[2] is None, 'path': facts(r.m, l)} for l in r.diverging[:20]],
           'swallowed': [swallow(s, r) for s in r.swallowed[:10]]}
    return out


def swallow(s, r):
    site, leaf = s
    return {'site': site, 'path': facts(r.m, leaf)}


def facts(m, st):
    """the path condition of a state in words"""
    out = []
    for n, d in st.dom.items():
        ty = st.x.get(('ty', n))
        full = m.e.trange(ty) if ty is not None else None
        if d == full or n.startswith('w:'): continue
        if n.endswith(']') and d == ((-1, -1),): out.append('%s is the end' % n); continue
        if n.startswith('discr('):
            ety = st.x.get(('ety', n))
            if n.startswith('discr(N('):
                ks = [m.kinds[k] for lo, hi in d for k in range(lo, hi + 1) if k < len(m.kinds)]
                if len(ks) < len(m.kinds): out.append('%s is %s' % (n[6:-1], '|'.join(ks)))
                continue
            if ety is not None:
                vs = [v['name'] for v in m.T[ety]['variants'] if any(lo <= v['discr'] <= hi for lo, hi in d)]
                if len(vs) < len(m.T[ety]['variants']): out.append('%s is %s' % (n[6:-1], '|'.join(vs)))
                continue
        def sh(x):
            if ty is not None and m.T[ty]['k'] == 'char' and 32 <= x < 127: return repr(chr(x))
            return str(x)
        iv = ['%s' % sh(lo) if lo == hi else '%s..%s' % (sh(lo), sh(hi)) for lo, hi in d]
        if len(iv) > 8: iv = iv[:8] + ['...']
        out.append('%s in {%s}' % (n, ', '.join(iv)))
    for n, (z, o) in st.bits.items():
        if z or o: out.append('%s: bits %#x set, bits %#x clear' % (n, o, z))
    for k, v in st.atoms.items(): out.append('%s%s' % ('' if v else 'not ', str(k)[:120]))
    return out


def flat(v, out):
    if isinstance(v, tuple):
        for x in v: flat(x, out)
    else: out.append(v)
    return out


def texts(o, key):
    """(sequence of literal text and opaque parts) of an output item list"""
    v = o.get(key)
    if not (isinstance(v, tuple) and v and isinstance(v[-1], tuple)): return None
    return v[-1]


def brackets(items):
    out = []
    for it in items or ():
        if it[0] == 'lit': out += [c for c in it[1] if c in '()[]<>{}`\'']
        elif it[0] == 'call' and re.search(r'output_(pre|post)', str(it[1])): out.append(str(it[1]))      # a declarator's two halves
        else: out.append('#')
    return [c for c in out if c != '#']


def squeeze(items):
    """text with white space removed, opaque parts by name"""
    out = []
    for it in items or ():
        if it[0] == 'lit':
            t = it[1].replace(' ', '')
            if not t: continue
            if out and isinstance(out[-1], str): out[-1] += t
            else: out.append(t)
        else: out.append(it)
    return out


def words(items):
    out = []
    for it in items or ():
        if it[0] == 'lit': out += re.findall(r'\w+|[^\w\s]', it[1])
        else: out.append(repr(it))
    return sorted(out)


def is_out(v):
    return isinstance(v, tuple) and len(v) >= 2 and isinstance(v[-1], tuple) and all(isinstance(x, tuple) and x and x[0] in ('lit', 'fmt', 'call') for x in v[-1]) and (v[0] == 'out' or isinstance(v[0], (tuple, type(None))) )


def outs(o):
    """(key, items) of the texts written on a path"""
    r = {}
    for k, v in o.items():
        if k.startswith('*') and isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and all(isinstance(x, tuple) and x and x[0] in ('lit', 'fmt', 'call') for x in v[1]): r[k] = v[1]
    return r


def flagbits(st, r):
    """bits of the output flags known to be set / clear on the path"""
    z = o = 0
    own = {'p%d' % (i + 1) for i, t in enumerate(A.params(r.f)) if A.T[t]['s'].split('::')[-1] in ('Flags', '&Flags')}
    for n, (a, b) in st.bits.items():
        if 'flags' in n or n in own or n.split('*')[0] in own: z |= a; o |= b
    return z, o


def failed_call(st, m):
    """a call on the path that is known to have failed"""
    for n, d in st.dom.items():
        if not n.startswith('discr(') or '#' not in n or len(d) != 1 or d[0][0] != d[0][1]: continue
        ety = st.x.get(('ety', n))
        if ety is not None and any(v['name'] == 'Err' and v['discr'] == d[0][0] for v in m.T[ety]['variants']): return n[6:-1]


def describe(mm, r):
    a, b = mm.a, mm.b
    tags = set(); keys = mm.keys()
    if a['end'] == 'ub' and b['end'] != 'ub': tags.add('ub')
    elif b['end'] == 'ub' and a['end'] != 'ub': tags.add('noub')
    elif a['end'] == 'panic' and b['end'] != 'panic': tags.add('panic')
    elif b['end'] == 'panic' and a['end'] != 'panic': tags.add('nopanic')
    elif a['end'] == 'diverge' and b['end'] != 'diverge': tags.add('diverge')
    elif b['end'] == 'diverge': tags.add('nodiverge')
    else:
        ea, eb = a.get('ret') == 'Err', b.get('ret') == 'Err'
        if eb and not ea: tags.add('accept')
        # success without any input consumed, where a loop relies on it
        if not ea and a['end'] == 'return' and 'self.mangled_name' not in a and (eb or 'self.mangled_name' in b) and A.in_loop(r.name): tags.add('stalls')
        elif ea and not eb: tags.add('reject')
        for k in keys:
            if k == 'nodes': tags.add('nodes'); continue
            if k == 'self.depth': tags.add('depth')
            # a node made earlier is made to point at another one made earlier
            if k.startswith('*N(') and not ea and linked(k, a.get(k), b.get(k)): tags.add('link')
            if ea or eb: continue
            if k == 'ret': tags.add('value')
            elif k == 'self.mangled_name': tags.add('cursor')
            elif k == 'self.backrefs':
                da, db = backrefs(a.get(k)), backrefs(b.get(k))
                if da.get('names') != db.get('names'): tags.add('names')
                if da.get('function_params') != db.get('function_params'): tags.add('params')
                if da == db: tags.add('names'); tags.add('params')
            elif k.startswith('self.'): tags.add('state')
            elif k.startswith('*N('): tags.add('node')
            else:
                oa, ob = outs(a).get(k), outs(b).get(k)
                if oa is None and ob is None: tags.add('state'); continue
                tags.add('text')
                oa = oa or (); ob = ob or ()
                if brackets(oa) != brackets(ob): tags.add('brackets')
                if squeeze(oa) == squeeze(ob): tags.add('space')
                elif words(oa) == words(ob): tags.add('order')
    if 'value' in tags and any(len(t) < 400 and re.search(r'demangle_(number|unsigned|signed)#', t) for k in keys for x, y in differing(a.get(k), b.get(k)) for t in (repr(x), repr(y))): tags.add('number')
    if 'text' in tags:
        own = {'p%d' % (i + 1) for i, t in enumerate(A.params(r.f)) if A.T[t]['s'].split('::')[-1] in ('Flags', '&Flags')}
        pat = re.compile(r"'S', '(?:%s|[^']*flags)[^'#]*'" % '|'.join(sorted(own) or ['flags']))
        # the same operation under other flags
        if any(len(t) < 400 and pat.search(t) for k in keys if k.startswith('*') for x, y in differing(a.get(k), b.get(k)) for t in (repr(x), repr(y))): tags.add('flags')
        # the same part printed in another mode
        def mode(x, y): return x[:1] == y[:1] == ('call',) and x[1] == y[1] and len(x[2]) == len(y[2]) and any(u != w and (isinstance(u, int) or isinstance(w, int)) for u, w in zip(x[2], y[2]))
        for k in keys:
            oa, ob = outs(a).get(k) or (), outs(b).get(k) or ()
            if len(oa) == len(ob) and any(u != w and mode(u, w) for u, w in zip(oa, ob)): tags.add('flags'); tags.add('brackets')
    z, o = flagbits(mm.cs, r)
    if 'accept' in tags and failed_call(mm.cs, r.m): tags.add('masked')
    return {'calls': calls(mm), 'tags': sorted(tags), 'keys': keys, 'flags_set': o, 'flags_clear': z, 'path': facts(r.m, mm.cs)[:60],
            'code': {k: cut(a.get(k)) for k in keys}, 'ref': {k: cut(b.get(k)) for k in keys}}


def differing(x, y):
    """the smallest parts in which two results differ"""
    if x == y: return []
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[:1] == y[:1] and not x[:1] in (('O',), ('L',)):
        return [d for p, q in zip(x, y) for d in differing(p, q)]
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and isinstance(x[0], tuple):
        return [d for p, q in zip(x, y) for d in differing(p, q)]
    return [(x, y)]


def linked(key, x, y):
    """a field of an existing node is set to something found in the nodes made so far"""
    def fields(v):
        # what was written to it
        if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'A' and isinstance(v[2], tuple)): return None
        try: return {n: f for n, f in v[2] if f != ('S', '%s*.%s' % (key[1:], n))}
        except (TypeError, ValueError): return None
    a, b = fields(x), fields(y) or {}
    if a is None: return False
    return any(f != b.get(n) and not (isinstance(f, tuple) and f[:1] == ('O',)) and "'N(" in repr(f) for n, f in a.items())


def calls(mm):
    """the first operation only one side performs (or performs on other operands), per side"""
    a = mm.cs.x.get('codecalls', ()); b = mm.rs.x.get('calls', ()); used = mm.rs.x.get('used', frozenset())
    return [f for f in (next((f for f, n, _ in a if n not in used), None), next((f for f, n, _ in b[len(a):]), None)) if f]


def backrefs(v):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == 'A' and isinstance(v[2], tuple):
        try: return {n: f for n, f in v[2]}
        except (TypeError, ValueError): pass
    return {'?': v}


def cut(v):
    s = repr(v)
    return s if len(s) < 700 else s[:700] + '...'


class TimeUp(BaseException): pass


START = time.time()
BUDGET = {'quick': (520, 700), 'thorough': (640, 760)}      # seconds after the start: for the units, for explanations


def time_up(*_): raise TimeUp()


def task(t):
    name, uncut, low, tier, limit = t
    opts = Opts(tier)
    left = START + BUDGET[tier][bool(uncut)] - time.time()
    if left < 2: return {'unit': name, 'uncut': sorted(uncut), 'crash': 'not analysed: time budget of the check used up'}
    opts.deadline = min(opts.deadline, left)
    old = signal.signal(signal.SIGALRM, time_up)
    signal.alarm(int(min(left, 2.2 * opts.deadline)) + 10)
    try:
        r = run_one(name, uncut, low, opts, limit)
        r.blocks = len([x for x in r.eng.nblocks if A.p.side[x[0]] == 'code'])
        return condense(r, uncut)
    except TimeUp:
        return {'unit': name, 'uncut': sorted(uncut), 'crash': 'not analysed: took too long'}
    except RecursionError as e:
        return {'unit': name, 'uncut': sorted(uncut), 'crash': 'RecursionError'}
    except MemoryError:
        return {'unit': name, 'uncut': sorted(uncut), 'crash': 'MemoryError'}
    except Exception as e:
        import traceback
        return {'unit': name, 'uncut': sorted(uncut), 'crash': '%r\n%s' % (e, traceback.format_exc(limit=-9))}
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)


COST = {'demangle_template_parameter_list': 100, 'do_output_post': 90, 'do_output_pre': 50, 'demangle_string_literal': 40,
        'demangle_type_unchecked': 30, 'demangle_special_intrinsic': 30}


def cost(t):
    for k, c in COST.items():
        if t[0].endswith(k): return -c
    return -(10 if 'output' in t[0] else 5)


def run_tasks(tasks, jobs=None, watch=None):
    jobs = jobs or min(8, os.cpu_count() or 1)
    tasks = sorted(tasks, key=cost)
    if not tasks: return []
    if jobs == 1: return [task(t) for t in tasks]
    out = []
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=20) as pool:
        for r in pool.imap_unordered(task, tasks): out.append(r)
    return out


def callers_of(units):
    """unit -> units that (transitively through functions that are inlined) call it"""
    p = A.p; cut = A.cutter
    names = A.cutnames
    idn = {f['id']: f['nname'] for f in p.fns}
    callers = {}
    for u in units:
        for side in ('code', 'ref'):
            for f in p.by_name[side].get(u, []):
                seen = set(); work = [f['id']]
                while work:
                    x = work.pop()
                    for c in cut.callees[x]:
                        n = idn[c]
                        if n in names: callers.setdefault(n, set()).add(u)
                        elif c not in seen: seen.add(c); work.append(c)
    return callers


def uses(u):
    """the other units a unit calls, per side"""
    p = A.p; cut = A.cutter; r = {'code': set(), 'ref': set()}
    for side in r:
        for f in p.by_name[side].get(u, []):
            seen = set(); work = [f['id']]
            while work:
                for c in cut.callees[work.pop()]:
                    n = p.fns[c]['nname']
                    if n in A.cutnames: r[side].add(n)
                    elif c not in seen: seen.add(c); work.append(c)
    return r['code'], r['ref']


def onesided(u):
    """functions that one side of a unit does without, and that lead to what the other side uses"""
    code, ref = uses(u)
    out = set()
    for x in code ^ ref:
        inner = uses(x)
        if (inner[0] | inner[1]) & (ref if x in code else code) or not (inner[0] | inner[1]): out.add(x)
    return frozenset(out) if len(out) <= 4 else frozenset()


def observers(u):
    """the units that contain u itself rather than a specification of it; None if that is not known"""
    p = A.p
    if not hasattr(A, '_callers'):
        A._callers = {}
        for i, cs in A.cutter.callees.items():
            for c in cs: A._callers.setdefault(c, set()).add(i)
        A._spec = A.engine(next(iter(A.cutnames)), frozenset())
    eng, m = A._spec
    def spec(f): return m.lookup(eng, f) is not None
    r = set()
    work = [f['id'] for side in ('code', 'ref') for f in p.by_name[side].get(u, [])]
    if any(spec(p.fns[i]) for i in work): return None
    seen = set(work)
    while work:
        cs = A._callers.get(work.pop(), ())
        if not cs: return None
        for c in cs:
            f = p.fns[c]; n = f['nname']
            if n in A.cutnames or n in A.extranames: r.add(n)
            elif spec(f):
                if n not in A.lownames: return None
                r.add(n)
            elif c not in seen: seen.add(c); work.append(c)
    return r


def explain_low(results, cleared, tier):
    """Helpers that differ although everything they are part of behaves as documented."""
    bad = {r['unit']: r for r in results if (r.get('mismatches') or r.get('swallowed')) and r['unit'] in A.lownames and r['unit'] not in A.cutnames}
    obs = {u: observers(u) for u in bad}
    obs = {u: o for u, o in obs.items() if o}
    if not obs: return {}
    need = sorted(set().union(*obs.values()))
    res = {r['unit']: r for r in run_tasks([(n, frozenset(), n in A.lownames, tier, 60) for n in need]) if 'crash' not in r}
    out = {}
    def agrees(o, u):
        r = res.get(o)
        if r is None or r['truncated'] or r['unsup'] or r['havocked']: return False
        if (r.get('mismatches') or r.get('swallowed')) and o not in cleared: return False
        return not r['bounded'] or r['unroll'] >= bad[u]['unroll']
    for u, o in obs.items():
        if all(agrees(x, u) for x in o): out[u] = 'what it is part of agrees: ' + ', '.join(sorted(short(x) for x in o))
    return out


def explain(results, tier, budget=240):
    """Differences that cancel out: a unit that differs is analysed again inside its callers.
    Returns {unit: reason} for units whose difference cannot be observed from any caller."""
    t0 = time.time()
    bad = {r['unit'] for r in results if r.get('mismatches') or r.get('swallowed')}
    bad = {u for u in bad if u in A.cutnames}
    if not bad: return {}, []
    DEEPBAD.clear(); DEEPBAD.update(r['unit'] for r in results if r.get('viadeep'))
    onlygrace = {r['unit'] for r in results if r.get('viagrace')}
    found = {r['unit']: r['unroll'] for r in results if r.get('mismatches') or r.get('swallowed')}
    callers = callers_of(A.cutnames)
    extra = []
    cleared = {}
    # the same work with a function in between, or without it
    helped = {}
    one = {u: h for u in bad for h in (onesided(u),) if h}
    if one:
        res = run_tasks([(u, h, False, tier, 1) for u, h in one.items()])
        extra += res
        for r in res:
            u = r['unit']
            if 'crash' in r or r.get('mismatches') or r.get('swallowed') or r['truncated']: continue
            if u in onlygrace or r['unroll'] >= found.get(u, 0) and u not in DEEPBAD or not r['bounded']:
                helped[u] = 'agrees with %s opened up' % ', '.join(sorted(short(x) for x in one[u]))
    bad -= set(helped)
    if not bad: return helped, extra
    M = set(bad); confirmed = set()
    for level in range(3):
        # 1. differing units re-analysed with the other differing units opened up
        tasks = []
        for u in M - confirmed:
            others = frozenset(M - {u})
            if others: tasks.append((u, others, False, tier, 1))
        need = set()
        for u in M - confirmed:
            for c in callers.get(u, ()):
                if c not in M: need.add(c)
        for c in need: tasks.append((c, frozenset(M), False, tier, 1))
        if not tasks: break
        res = run_tasks(tasks)
        extra += res
        # an agreement that does not go as far as the difference says nothing
        def far(r):
            if r['truncated'] and onlygrace & set(r['uncut']): return False
            return all((u in onlygrace or r['unroll'] >= found.get(u, 0)) and (u not in DEEPBAD or r['rounds'] >= 40) or not r['bounded'] for u in r['uncut'])
        status = {r['unit']: bool(r.get('mismatches') or r.get('swallowed') or not far(r)) for r in res if 'crash' not in r}
        changed = False
        # a differing unit that agrees once the others are opened up differs only in how the work is shared
        for u in list(M - confirmed):
            cs = callers.get(u, set()) - {u}
            ok_self = u in status and not status[u]
            ok_callers = bool(cs) and all(c in status and not status[c] for c in cs)
            if ok_callers: cleared[u] = 'agrees inside every caller: ' + ', '.join(sorted(short(c) for c in cs))
            elif ok_self and not cs: cleared[u] = 'agrees with the differing callees opened up'
        rest = M - set(cleared)
        # 2. callers that still differ: look further up only if an ancestor was changed as well
        up = {c for c in need if status.get(c)}
        anc = set(); work = list(up)
        while work:
            x = work.pop()
            for c in callers.get(x, ()):
                if c not in anc: anc.add(c); work.append(c)
        if level < 2 and up and (anc & bad) - up and time.time() - t0 < budget / 2 and len(bad) > 1:
            M = M | up; cleared = {}
            continue
        # units whose callees explain them: agree when opened up and every differing callee is cleared
        again = True
        while again:
            again = False
            for u in list(rest):
                if u in status and not status[u]:
                    diffc = {v for v in M if u in callers.get(v, set())}
                    if diffc and diffc <= set(cleared) | {u}:
                        cleared[u] = 'agrees with the differing callees opened up'; rest.discard(u); again = True
        break
    return {**{u: w for u, w in cleared.items() if u in bad}, **helped}, extra
