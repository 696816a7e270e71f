"""Rules decided on the source alone, without the reference model (except where a baseline is stated)."""
import re
from diff import STATEFUL


def run(A, pid, tier, res):
    f = RULES.get(pid)
    V = []; cov = {}
    for r in f or ():
        v, c = r(A, res, tier)
        V += v; cov[r.__name__] = c
    return V, cov


def V(construct, loc, what, *detail):
    return {'construct': construct, 'loc': loc, 'what': what, 'detail': list(detail)}


def bodies(A, side='code', local=True):
    for f in A.p.fns:
        if A.p.side[f['id']] == side and f['body'] and (f['local'] or not local): yield f


def places(f):
    """every place mentioned in a body: (place, 'read' | 'write' | 'refmut' | 'ref', location)"""
    def ops(x, loc):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                yield x[1], 'read', loc
                return
            for y in x: yield from ops(y, loc)
    for bb in f['body']['blocks']:
        if bb is None: continue
        for s in bb['s']:
            if s[0] != '=': continue
            yield s[1], 'write', f['loc']
            rv = s[2]
            if rv[0] in ('ref', 'rawptr'):
                yield rv[2], 'ref' if rv[1] in (False, 'shared', 'imm', 0, None) else 'refmut', f['loc']
            elif rv[0] in ('discr', 'len'): yield rv[1], 'read', f['loc']
            else: yield from ops(rv, f['loc'])
        t = bb['t']
        if t[0] == 'call': yield t[3], 'write', t[5]
        yield from ops(t, f['loc'])


def fields_of(A, f, pl):
    """(type path, field name) of every field a place goes through"""
    T = A.T
    ty = f['body']['locals'][pl[0]]
    for e in pl[1:]:
        t = T[ty]
        if e == '*': ty = t.get('to', ty)
        elif isinstance(e, list) and e[0] == 'f':
            if t['k'] == 'adt' and len(t['variants']) == 1 and e[1] < len(t['variants'][0]['fields']):
                yield t['path'], t['variants'][0]['fields'][e[1]][0]
            ty = e[2]
        elif isinstance(e, list) and e[0] in ('i', 'ci'): ty = t.get('to', ty)


def reachable(A, roots, skip=lambda f: False, callees=None):
    callees = callees or A.cutter.callees
    seen = set(); work = [r for r in roots]
    while work:
        x = work.pop()
        if x in seen or skip(A.p.fns[x]): continue
        seen.add(x); work += callees[x]
    return seen


def entry_points(A, side='code'):
    return [f['id'] for f in A.p.fns if A.p.side[f['id']] == side and f['local'] and f['path'] in ('demangle', 'demangle_into')]


def parse_roots(A, side='code'):
    return [f['id'] for f in A.p.fns if A.p.side[f['id']] == side and f['local'] and re.search(r"^demangler::Demangler::<.*>::do_parse$", f['path'])]


# ---------------------------------------------------------------- C02
UNSAFE_OK = re.compile(r'get_unchecked(_mut)?$|push_unchecked$|unwrap_unchecked$|from_utf8_unchecked$|from_u32_unchecked$|new_unchecked$|unreachable_unchecked$|::unchecked_(add|sub|mul)$|std::fmt::(Arguments|rt)|core::fmt::rt|^bitflags::|^thiserror::')


def unsafe_inventory(A, res, tier):
    """Every unsafe operation of the crate's own code has a precondition the path analysis decides;
    raw pointers, reinterpretation of memory and mutable statics do not occur."""
    out = []; sites = {}; n = 0
    ref = set()
    for side in ('ref', 'code'):
        for f in bodies(A, side):
            n += side == 'code'
            for bb in f['body']['blocks']:
                if bb is None: continue
                for s in bb['s']:
                    if s[0] != '=': continue
                    rv = s[2]; bad = None
                    if rv[0] == 'cast' and re.search('Transmute|PtrToPtr|PointerExpose|PointerWithExposed', str(rv[1])):
                        a, b = A.T[rv[3]]['s'], A.T[rv[4]]['s']
                        if not re.search(r'NonNull|Unique|Box', a + b): bad = 'conversion of %s to %s' % (a, b)
                    elif rv[0] == 'rawptr': bad = 'raw pointer to a place'
                    if bad and not boxed(A, f):
                        if side == 'ref': ref.add((f['nname'], bad))
                        elif (f['nname'], bad) not in ref:
                            out.append(V(f['name'], f['loc'], 'unsafe operation whose precondition is not established: ' + bad))
                t = bb['t']
                if t[0] != 'call' or t[1][0] != 'fn': continue
                g = A.p.fns[t[1][1]]
                if not g.get('unsafe') or g['local']: continue
                if side == 'ref': ref.add((f['nname'], g['path'])); continue
                sites.setdefault(g['path'], []).append(t[5])
                if not UNSAFE_OK.search(g['path']) and (f['nname'], g['path']) not in ref:
                    out.append(V(f['name'], t[5], 'unsafe operation whose precondition is not established: ' + g['path']))
    for s in A.p.raw['code']['statics']:
        if s['mutable']: out.append(V(s['path'], s['loc'], 'mutable static'))
    return out, {'rule': unsafe_inventory.__doc__, 'functions': n, 'unsafe_call_sites': {k: sorted(v) for k, v in sites.items()}}


def boxed(A, f): return any('Box<' in A.T[l]['s'] for l in f['body']['locals'])


# ---------------------------------------------------------------- C03
def progress(A, res, tier):
    """No loop can return to the state it started a round in (cursor, iterators, locals and nodes all unchanged)."""
    out = []; loops = 0
    for f in bodies(A): loops += len(A.p.loop_heads(f['id'])) if hasattr(A.p, 'loop_heads') else 0
    seen = set()
    for r in res:
        for d in r['diverging']:
            if d['sure'] and (r['unit'], d['site']) not in seen:
                seen.add((r['unit'], d['site']))
                out.append(V(r['unit'], d['site'], 'can repeat for ever without progress', 'on paths where: ' + '; '.join(d['path'][:20])))
    return out, {'rule': progress.__doc__, 'loops_in_crate': loops, 'units': len(res)}


# ---------------------------------------------------------------- C04
def guards(A, side='code'):
    """functions that refuse to go on when a counter in the parser state has reached a constant limit"""
    out = {}
    for f in bodies(A, side):
        w = set(); loaded = {}; lim = []
        for pl, kind, loc in places(f):
            if kind == 'write':
                for p, n in fields_of(A, f, pl):
                    if p == STATEFUL: w.add(n)
        for bb in f['body']['blocks']:
            if bb is None: continue
            for s in bb['s']:
                if s[0] != '=': continue
                rv = s[2]
                if rv[0] == 'use' and rv[1][0] in ('c', 'm') and len(s[1]) == 1:
                    for p, n in fields_of(A, f, rv[1][1]):
                        if p == STATEFUL: loaded[s[1][0]] = n
                    if len(rv[1][1]) == 1 and rv[1][1][0] in loaded: loaded[s[1][0]] = loaded[rv[1][1][0]]
                if rv[0] == 'bin' and rv[1] in ('Ge', 'Gt', 'Lt', 'Le', 'Eq', 'Ne'):
                    a, b = rv[2], rv[3]
                    for x, y in ((a, b), (b, a)):
                        if x[0] in ('c', 'm') and y[0] == 'k' and isinstance(y[2], dict) and y[2].get('k') == 'i':
                            n = loaded.get(x[1][0]) if len(x[1]) == 1 else next((n for p, n in fields_of(A, f, x[1]) if p == STATEFUL), None)
                            if n: lim.append((n, y[2]['v']))
        for n, v in lim:
            if n in w and 2 <= v <= 1024: out[f['id']] = (n, v)
    return out


def guarded_graph(A, side='code'):
    """call graph in which what a guard is asked to run is reached through the guard only"""
    G = guards(A, side)
    run = {}      # guard -> callables it was instantiated with
    for g in G:
        run[g] = {A.p.fns[A.p.fn_of_type(l, side)]['nname'] for l in A.p.fns[g]['body']['locals'] if A.T[l]['k'] in ('closure', 'fndef') and isinstance(A.T[l].get('fn'), int)}
    edges = {}
    for f in bodies(A, side, local=False):
        i = f['id']
        called = {bb['t'][1][1] for bb in f['body']['blocks'] if bb and bb['t'][0] == 'call' and bb['t'][1][0] == 'fn'}
        via = set()
        for c in called:
            if c in G: via |= run[c]
        edges[i] = {c for c in A.cutter.callees[i] if c in called or A.p.fns[c]['nname'] not in via}
    return G, edges


def sccs(nodes, edges):
    """strongly connected components that contain a cycle (Tarjan, iterative)"""
    idx = {}; low = {}; st = []; on = set(); out = []; n = 0
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(edges.get(r, ())))]
        idx[r] = low[r] = n; n += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in nodes: continue
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); on.add(w)
                    work.append((w, iter(edges.get(w, ())))); adv = True; break
                if w in on: low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); on.discard(w); c.append(w)
                    if w == v: break
                if len(c) > 1 or v in edges.get(v, ()): out.append(c)
    return out


def recursion_guarded(A, res, tier):
    """Every cycle of the parser's call graph passes a function that checks the nesting depth against a constant."""
    G, edges = guarded_graph(A)
    roots = parse_roots(A)
    nodes = reachable(A, roots, callees=lambda_map(edges))
    cyc = [c for c in sccs(nodes - set(G), edges)]
    all_cyc = sccs(nodes, A.cutter.callees)
    out = []
    for c in cyc:
        fs = [A.p.fns[x] for x in c]
        if not any(f['local'] for f in fs): continue
        if not any(parser_state(A, f) for f in fs): continue
        f = min((f for f in fs if f['local']), key=lambda f: f['loc'])
        out.append(V(f['name'], f['loc'], 'recursion that no nesting check bounds', 'cycle through: ' + ', '.join(sorted(g['path'].split('::')[-1] for g in fs if g['local']))[:600]))
    if not roots: out.append(V('do_parse', '', 'the parser entry was not found'))
    return out, {'rule': recursion_guarded.__doc__, 'functions': len(nodes), 'guards': sorted({A.p.fns[g]['path'] for g in G}),
                 'limits': sorted({v for _, v in G.values()}), 'recursive_functions': sum(len(c) for c in all_cyc), 'unguarded_cycles': len(out)}


def parser_state(A, f):
    return any(A.is_dem(t) for t in f['body']['locals'][1:1 + f['body']['argc']]) or any(A.is_dem(t) for t in f['body']['locals'])


class lambda_map:
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d.get(k, ())


# ---------------------------------------------------------------- C05
OWNERS = {'cache::NodeCache': 'storage', 'demangler::writing::BufWriter': 'buffer', 'cache::NodeHandle': 'id'}


def storage_encapsulated(A, res, tier):
    """The node table, the identity of a node handle and the output buffer are touched only by the functions that enforce the limits
    (methods of their own type), and only those write them."""
    out = []; acc = {}; made = {}
    base = set()
    for side in ('ref', 'code'):
        for f in bodies(A, side):
            own = owner(A, f)
            for pl, kind, loc in places(f):
                for p, n in fields_of(A, f, pl):
                    if p in OWNERS and n == OWNERS[p] and own != p and '<%s' % p not in f['path'] and p + '::' not in f['path']:
                        k = (f['nname'], p, n, 'write' if kind in ('write', 'refmut') else 'read')
                        if side == 'ref': base.add(k)
                        elif k not in base and k[3] == 'write':
                            out.append(V(f['name'], loc, 'writes %s.%s past the limit' % (p, n)))
                        if side == 'code': acc[k] = acc.get(k, 0) + 1
            for bb in f['body']['blocks']:
                if bb is None or bb['t'][0] != 'call' or bb['t'][1][0] != 'fn': continue
                g = A.p.fns[bb['t'][1][1]]
                if re.search(r'^cache::NodeHandle::<.*>::new$', g['path']):
                    k = (f['path'], 'makes handle')
                    if side == 'ref': base.add(k)
                    elif k not in base and not re.search(r'cache::(Node|_)', f['path']): out.append(V(f['name'], bb['t'][5], 'creates a node handle outside the node table'))
                    if side == 'code': made[f['path']] = made.get(f['path'], 0) + 1
    # inside the owning types: what changes them is the functions that check the limits, and what only these call
    def writers(side):
        return {f['path'] for f in bodies(A, side) for pl, kind, loc in places(f) if kind in ('write', 'refmut')
                for p, n in fields_of(A, f, pl) if OWNERS.get(p) == n and n != 'id'}
    known = writers('ref'); new = writers('code') - known
    calls = {}
    for f in bodies(A, 'code'):
        for bb in f['body']['blocks']:
            if bb is not None and bb['t'][0] == 'call' and bb['t'][1][0] == 'fn':
                calls.setdefault(A.p.fns[bb['t'][1][1]]['path'], set()).add(f['path'])
    ok = set(known); more = True
    while more:
        more = {x for x in new - ok if calls.get(x) and calls[x] <= ok}
        ok |= more
    for f in bodies(A, 'code'):
        if f['path'] in new - ok:
            out.append(V(f['name'], f['loc'], 'changes the node table or the output text without passing the function that checks the limit')); ok.add(f['path'])
    return out, {'rule': storage_encapsulated.__doc__, 'writers': len(known | new), 'handle_creations': made, 'foreign_accesses': len(acc)}


def owner(A, f):
    s = f.get('impl_self')
    if isinstance(s, int): s = A.T[s]['s']
    return re.sub(r'<.*', '', s or '')


# ---------------------------------------------------------------- C08
def parser_ignores_flags(A, res, tier):
    """No function reachable from the parser entry reads the output flags kept in the parser state or takes flags as a parameter,
    except where the same function does in the reference (rendering a nested symbol)."""
    out = []; n = 0
    base = set()
    for side in ('ref', 'code'):
        fs = reachable(A, parse_roots(A, side))
        for x in fs:
            f = A.p.fns[x]
            if not f['body'] or not f['local']: continue
            n += side == 'code'
            for pl, kind, loc in places(f):
                if any(p == STATEFUL and fl == 'flags' for p, fl in fields_of(A, f, pl)):
                    if side == 'ref': base.add(f['path'])
                    elif f['path'] not in base:
                        out.append(V(f['name'], loc, 'parsing reads the output flags'))
    uniq = {}
    for v in out: uniq.setdefault(v['construct'], v)
    return list(uniq.values()), {'rule': parser_ignores_flags.__doc__, 'functions_reachable_from_parser': n, 'reads_in_reference': sorted(base)}


# ---------------------------------------------------------------- C09 / C10
ALIASES = {'NO_ALLOCATION_LANGUAGE': 'NO_CALLING_CONVENTION', 'NO_ECSU': 'NO_TAG_SPECIFIER',
           'NO_ACCESS_SPECIFIERS': 'NO_ACCESS_SPECIFIER', 'NO_FUNCTION_RETURNS': 'NO_RETURN_TYPE'}
DOCUMENTED = ['NO_CALLING_CONVENTION', 'NO_TAG_SPECIFIER', 'NO_ACCESS_SPECIFIER', 'NO_MEMBER_TYPE', 'NO_RETURN_TYPE',
              'NO_VARIABLE_TYPE', 'NO_THISTYPE', 'NO_LEADING_UNDERSCORES', 'NO_MS_KEYWORDS', 'NAME_ONLY']


def scalar(v):
    while isinstance(v, dict):
        if v.get('k') == 'i': return v['v']
        f = v.get('f')
        if not f or len(f) != 1: return None
        v = f[0]
    return None


def flag_constants(A, res, tier):
    """Every documented flag is one bit of its own; every documented alias equals its original; no flag set is wider than the printer reads."""
    vals = {c['path'].split('::')[-1]: (scalar(c['v']), c['loc']) for c in A.p.raw['code']['consts'] if c['ty'] == 'Flags' and c['path'].startswith('Flags::')}
    out = []; bits = {}
    for n in DOCUMENTED:
        if n not in vals: out.append(V('Flags::' + n, 'src/lib.rs', 'documented flag does not exist')); continue
        v, loc = vals[n]
        if v is None: continue
        if v == 0 or v & (v - 1): out.append(V('Flags::' + n, loc, 'flag is not a single bit (%#x)' % v))
        elif v in bits: out.append(V('Flags::' + n, loc, 'flag shares its bit with %s' % bits[v]))
        bits[v] = n
    for a, b in ALIASES.items():
        if a not in vals: out.append(V('Flags::' + a, 'src/lib.rs', 'documented alias does not exist'))
        elif b in vals and vals[a][0] is not None and vals[a][0] != vals[b][0]:
            out.append(V('Flags::' + a, vals[a][1], 'alias differs from %s' % b))
    return out, {'rule': flag_constants.__doc__, 'constants': {k: v[0] for k, v in vals.items()}}


# ---------------------------------------------------------------- C11
IMPURE = re.compile(r'^std::(env|time|fs|net|process|os|sys)::|^std::io::(stdin|stdout|stderr|stdio|_print|_eprint|Stdin|Stdout|Stderr)|^(rand|getrandom|fastrand)::'
                    r'|std::time::|SystemTime|Instant::now|atomic::Atomic|thread::local|LocalKey|std::thread::|RandomState|std::sync::(Mutex|RwLock|Once\b|OnceLock|poison|nonpoison|mpsc|Condvar)'
                    r'|std::cell::(OnceCell|Cell|RefCell).*static|std::random::|ptr::(const|mut)_ptr::.*::(addr|expose_provenance)$|std::backtrace|Location::<.*>::caller|panic::Location'
                    r'|new_pointer$|std::any::type_name|std::hash::BuildHasherDefault.*rand')
STATEFUL_TYPE = re.compile(r'\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Once|OnceLock|OnceCell|Atomic\w*|LocalKey|SyncUnsafeCell)\b')


def pure(A, res, tier):
    """No function reachable from an entry point uses global mutable state, thread-local state, time, environment, randomness, input/output
    devices or addresses of memory; the crate declares no mutable or interior-mutable static and no foreign items."""
    out = []
    reach = {}
    for side in ('ref', 'code'):
        reach[side] = reachable(A, entry_points(A, side))
    base = {A.p.fns[x]['path'] for x in reach['ref']}
    n = 0
    callers = {}
    for x in reach['code']:
        for c in A.cutter.callees[x]: callers.setdefault(c, set()).add(x)
    for x in reach['code']:
        f = A.p.fns[x]; n += 1
        if IMPURE.search(f['path']) and f['path'] not in base:
            who = [A.p.fns[c] for c in callers.get(x, ())]
            loc = next((g for g in who if g['local']), None)
            while loc is None and who:
                up = [A.p.fns[c] for g in who for c in callers.get(g['id'], ())]
                loc = next((g for g in up if g['local']), None)
                if {g['id'] for g in up} <= {g['id'] for g in who}: break
                who = up
            out.append(V((loc or f)['name'], (loc or f)['loc'], 'demangling depends on something besides input and flags: ' + f['path']))
        if not f['body'] or not f['local']: continue
        for bb in f['body']['blocks']:
            if bb is None: continue
            for s in bb['s']:
                if s[0] == '=' and s[2][0] == 'cast' and re.search('PointerExpose|PtrToInt', str(s[2][1])):
                    out.append(V(f['name'], f['loc'], 'demangling depends on an address'))
    d = A.p.raw['code']
    for s in d['statics']:
        if s['mutable'] or STATEFUL_TYPE.search(s['ty']) and 'LazyLock' not in s['ty'] and 'Lazy<' not in s['ty']:
            out.append(V(s['path'], s['loc'], 'state kept between calls: static of type ' + s['ty']))
    for x in d['foreign']:
        if x not in A.p.raw['ref']['foreign']: out.append(V(str(x), '', 'foreign item'))
    if not reach['code']: out.append(V('demangle', '', 'entry points not found'))
    return out, {'rule': pure.__doc__, 'functions_reachable': n, 'statics': len(d['statics']), 'foreign_items': len(d['foreign'])}



def buffer_emptied(A, res, tier):
    """Every path of demangle_into hands the caller's own buffer back, and every path that returns an error, whichever step
    failed (reading, printing, converting to text), leaves it empty."""
    from engine import Unsupported, Infeasible, Split
    out = []; n = bad = und = good = 0; seen = set()
    # what runs inside the call is followed here down to reading and printing proper
    inner = frozenset(x for x in A.cutnames if x.split('::')[-1] in ('parse_into', 'new', 'demangle_into'))
    for name in sorted(A.cutnames | A.extranames):
        if name.split('::')[-1] != 'demangle_into': continue
        f, g = A.pairs[name]
        A.unroll = 2; A.max_paths = 2000; A.deadline = __import__('time').time() + 60
        eng, m = A.engine(name, inner)
        st, args = A.start(eng, f)
        bufs = []
        for i, a in enumerate(args):
            if isinstance(a, int) or a[0] != 'S' or A.T[a[2]]['k'] not in ('ref', 'ptr'): continue
            if A.T[A.T[a[2]]['to']].get('path') != 'std::string::String': continue
            a = eng.deref(st, a)
            old = ('X', 'str', 'previous content', 0, None)
            st.objs[a[1]] = ('X', 'out', m.OWN, (('fmt', old, 'display', None),)); bufs.append(a)
        m.mode = eng.side = 'code'; m.forking = True
        for leaf in eng.run(f['id'], args, st):
            if leaf.outcome[0] != 'ret': continue
            err = A.is_err(leaf.outcome[1])
            n += 1
            for a in bufs:
                v = leaf.objs.get(a[1]); r = repr(v)
                if not isinstance(v, tuple) or v[0] != 'X' or v[1] not in ('out', 'seq') or v[2] not in (m.OWN, None) or '?' in r: und += 1; continue
                if v[2] is None: what = 'the caller\'s allocation is given up' + (' after an error' if err else '')
                elif err and m.render_items(leaf, v[3]): what = 'an error leaves text in the caller\'s buffer'
                else: good += 1; continue
                bad += 1
                if what not in seen:
                    seen.add(what)
                    import suite
                    out.append(V(name, leaf.failed or f['loc'], what, 'content: %s' % r[:300],
                                 'on paths where: ' + '; '.join(suite.facts(m, leaf)[:20])))
    return out, {'rule': buffer_emptied.__doc__, 'paths': n, 'kept': good, 'violating': bad, 'undecided': und}


CONSUMES = re.compile(r"^(core|std)::(result|option)::(Result|Option)::<.*>::(ok|err|is_ok|is_err|as_ref|as_mut)$")


def results(A, side):
    """calls that return a Result: per callee, how often it is looked at and where it is dropped unread"""
    out = {}
    for f in bodies(A, side):
        T = A.T; body = f['body']
        used = {}; flows = {}

        def note(x, bb):
            # locals mentioned as operands or places read
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                    used[x[1][0]] = used.get(x[1][0], 0) + 1; return
                for y in x: note(y, bb)
        calls = []
        for bb in body['blocks']:
            if bb is None: continue
            for s in bb['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] in ('ref', 'rawptr'): used[rv[2][0]] = used.get(rv[2][0], 0) + 1
                    elif rv[0] in ('discr', 'len'): used[rv[1][0]] = used.get(rv[1][0], 0) + 1
                    else: note(rv, bb)
            t = bb['t']
            if t[0] == 'call':
                calls.append(t)
                note(t[2], bb)
                if t[1][0] == 'ind': note(t[1], bb)
            elif t[0] != 'drop': note(t, bb)
        used[0] = used.get(0, 0) + 1

        def unread(l, seen=()):
            """the value of a local is dropped without anything being decided by it"""
            if l in seen: return True
            n = used.get(l, 0)
            if not n: return True
            # only handed on to something that itself is not looked at
            k = 0
            for t in calls:
                if t[1][0] != 'fn' or len(t[3]) != 1: continue
                if any(a[0] in ('c', 'm') and a[1] == [l] for a in t[2]) and CONSUMES.match(A.p.fns[t[1][1]]['name']):
                    if not unread(t[3][0], seen + (l,)): return False
                    k += 1
            return k == n
        for t in calls:
            if t[1][0] != 'fn' or len(t[3]) != 1: continue
            g = A.p.fns[t[1][1]]
            ty = T[body['locals'][t[3][0]]]
            if ty['k'] != 'adt' or ty.get('path') not in ('core::result::Result', 'std::result::Result'): continue
            if CONSUMES.match(g['name']): continue
            e = out.setdefault(g.get('nname') or g['name'], [0, []])
            if unread(t[3][0]): e[1].append((f['name'], t[5]))
            else: e[0] += 1
    return out


def errors_discarded(A, res, tier):
    """an operation whose failure used to be looked at is not simply dropped now"""
    code, ref = results(A, 'code'), results(A, 'ref')
    viol = []; n = 0
    for name, (looked, dropped) in sorted(code.items()):
        n += looked + len(dropped)
        r = ref.get(name, [0, []])
        if len(dropped) > len(r[1]) and looked < r[0]:
            was = {x[0] for x in r[1]}
            for fn, loc in dropped:
                if fn not in was: viol.append(V(fn, loc, 'the result of %s is dropped unread: a failure is not reported' % name))
    return viol, {'results of fallible calls': n, 'dropped unread': sum(len(x[1]) for x in code.values())}


RULES = {
    'C02': [unsafe_inventory], 'C03': [progress], 'C04': [recursion_guarded], 'C05': [storage_encapsulated], 'C06': [buffer_emptied], 'C07': [errors_discarded],
    'C08': [parser_ignores_flags], 'C09': [flag_constants], 'C10': [flag_constants], 'C11': [pure],
}
