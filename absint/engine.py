"""Abstract interpreter over the type-checked MIR of the crate under analysis.

Trace-partitioned dataflow: every CFG path of one function is followed over an abstract
state; the domains are interval sets (integers, characters, discriminants), known bits
(bit flags), linear forms over symbolic lengths, and lazily typed opaque values.  Calls to
the functions that delimit a unit ("cuts") are summarised, all other crate-local calls and
the generic parts of std are inlined.  Nothing is executed and no solver is used.
"""
import hashlib, json, sys, time
from itertools import count

sys.setrecursionlimit(10000)

ISIZE_MAX = 2**63 - 1
CHAR_DOM = ((0, 0xD7FF), (0xE000, 0x10FFFF))


# ------------------------------------------------------------------ interval sets
def iv_inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0]); hi = min(a[i][1], b[j][1])
        if lo <= hi: out.append((lo, hi))
        if a[i][1] < b[j][1]: i += 1
        else: j += 1
    return tuple(out)


def iv_norm(l):
    out = []
    for lo, hi in sorted(l):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]: out[-1] = (out[-1][0], hi)
        else: out.append((lo, hi))
    return tuple(out)


def iv_minus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for l2, h2 in b:
            if h2 < cur or l2 > hi: continue
            if l2 > cur: out.append((cur, l2 - 1))
            cur = max(cur, h2 + 1)
        if cur <= hi: out.append((cur, hi))
    return tuple(out)


def iv_size(a): return sum(h - l + 1 for l, h in a)


class Split(Exception):
    """Raised when an undetermined fact must be decided: list of refinements."""
    def __init__(self, cases, why=''):
        self.cases = cases; self.why = why


class Infeasible(Exception): pass


class Unsupported(Exception): pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d['fns']; self.types = d['types']; self.vtables = d['vtables']
        self.statics = d.get('statics'); self.foreign = d.get('foreign'); self.raw = d
        self.by_path = {}
        for i, f in enumerate(self.fns):
            f['id'] = i
            self.by_path.setdefault(f['path'], []).append(f)
        self._loops = {}
        self.tname = {}
        for i, t in enumerate(self.types):
            self.tname.setdefault(t['s'], i)
        self.adts = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt': self.adts.setdefault(t['path'], []).append(i)

    def loop_heads(self, fid):
        r = self._loops.get(fid)
        if r is None:
            b = self.fns[fid]['body']['blocks']
            succ = []
            for bb in b:
                succ.append([] if bb is None else succs(bb['t']))
            heads = set(); color = {}
            stack = [(0, iter(succ[0]))]; color[0] = 1
            while stack:
                n, it = stack[-1]
                for m in it:
                    if color.get(m) == 1: heads.add(m)
                    elif m not in color:
                        color[m] = 1; stack.append((m, iter(succ[m]))); break
                else:
                    color[n] = 2; stack.pop()
            r = self._loops[fid] = heads
        return r

    def loop_blocks(self, fid, head):
        """the blocks of the loop with this head: those on a way from the head back to it"""
        r = self._loops.get((fid, head))
        if r is None:
            b = self.fns[fid]['body']['blocks']
            pred = {}; fwd = {head}; work = [head]
            while work:
                n = work.pop()
                for m in ([] if b[n] is None else succs(b[n]['t'])):
                    pred.setdefault(m, set()).add(n)
                    if m not in fwd: fwd.add(m); work.append(m)
            r = {head}; work = [head]
            while work:
                for q in pred.get(work.pop(), ()):
                    if q not in r: r.add(q); work.append(q)
            self._loops[(fid, head)] = r
        return r


def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop': return [t[2]]
    if k == 'call': return [] if t[4] is None else [t[4]]
    if k == 'assert': return [t[5]]
    return []


class Frame:
    __slots__ = ('fn', 'bb', 'idx', 'fid', 'ret', 'cont', 'visits', 'ent', 'last')

    def __init__(self, fn, fid, ret, cont):
        self.fn = fn; self.bb = 0; self.idx = 0; self.fid = fid; self.ret = ret; self.cont = cont
        self.visits = {}; self.ent = False; self.last = None

    def copy(self):
        f = Frame(self.fn, self.fid, self.ret, self.cont)
        f.bb = self.bb; f.idx = self.idx; f.visits = dict(self.visits); f.ent = self.ent; f.last = self.last
        return f


class State:
    __slots__ = ('objs', 'dom', 'bits', 'rel', 'atoms', 'subst', 'frames', 'events', 'cnt', 'nfid',
                 'splits', 'taint', 'failed', 'outcome', 'steps', 'x', 'memo', 'loops', 'trace')

    def __init__(self):
        self.objs = {}; self.dom = {}; self.bits = {}; self.rel = {}; self.atoms = {}; self.subst = {}
        self.frames = []; self.events = []; self.cnt = {}; self.nfid = 0; self.splits = 0
        self.taint = None; self.failed = None; self.outcome = None; self.steps = 0; self.x = {}; self.memo = {}; self.loops = 0; self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs); s.dom = dict(self.dom); s.bits = dict(self.bits); s.rel = dict(self.rel)
        s.atoms = dict(self.atoms); s.subst = dict(self.subst)
        s.frames = [f.copy() for f in self.frames]
        s.events = list(self.events); s.cnt = dict(self.cnt); s.nfid = self.nfid; s.splits = self.splits
        s.taint = self.taint; s.failed = self.failed; s.outcome = self.outcome; s.steps = self.steps
        s.x = dict(self.x); s.memo = {}; s.loops = self.loops; s.trace = self.trace
        return s

    def fresh(self, stem):
        n = self.cnt.get(stem, 0) + 1; self.cnt[stem] = n
        return '%s#%d' % (stem, n)


def S(name, ty): return ('S', name, ty)


def is_havoc(name): return '?' in name


class Engine:
    def __init__(self, prog, cuts=None, models=None, max_paths=60000, max_steps=40000, unroll=2, fail=True):
        self.p = prog; self.T = prog.types
        self.cuts = cuts or {}          # fn id -> handler
        self.side = 'code'
        self.models = models            # function: fn record -> handler or None
        self.max_paths = max_paths; self.max_steps = max_steps; self.unroll = unroll; self.fail = fail; self.deep = 0; self.grace = False; self.nchains = 0; self.marks = frozenset()
        self.havocked = {}              # fn name -> count
        self.visited_fns = set(); self.nblocks = set()
        self.obligations = {}           # key -> [status, info]
        self.recursion_cut = None
        self.ubool = next((i for i, t in enumerate(self.T) if t['k'] == 'bool'), None)
        self.uty = next((i for i, t in enumerate(self.T) if t['s'] == 'usize'), None)
        self.chty = next((i for i, t in enumerate(self.T) if t['k'] == 'char'), None)
        self.u32ty = next((i for i, t in enumerate(self.T) if t['s'] == 'u32'), None)
        self.u8ty = next((i for i, t in enumerate(self.T) if t['s'] == 'u8'), None)
        self.kinds_of_view = {}
        self.view_types = set()
        self.truncated = 0; self._zst = {}
        self.hooks = {}; self.deadline = None; self.trunc_level = None

    # ------------------------------------------------------------ types
    def trange(self, ty):
        t = self.T[ty]; k = t['k']
        if k == 'bool': return ((0, 1),)
        if k == 'char': return CHAR_DOM
        if k == 'int':
            b = t['bits']
            return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),) if t['signed'] else ((0, (1 << b) - 1),)
        return None

    def is_scalar(self, ty): return self.T[ty]['k'] in ('bool', 'char', 'int')

    def variants(self, ty): return self.T[ty].get('variants')

    def field_types(self, ty, var=0):
        t = self.T[ty]; k = t['k']
        if k == 'adt':
            v = t['variants'][var]; return [(n, f) for n, f in v['fields']]
        if k in ('tuple', 'closure'):
            return [(str(i), f) for i, f in enumerate(t['fields'])]
        return None

    def is_zst(self, ty):
        r = self._zst.get(ty)
        if r is None:
            self._zst[ty] = False
            t = self.T[ty]; k = t['k']
            if k == 'tuple': r = all(self.is_zst(f) for f in t['fields'])
            elif k == 'fndef': r = True
            elif k == 'adt': r = t['adt'] == 'struct' and all(self.is_zst(f) for _, f in t['variants'][0]['fields'])
            else: r = False
            self._zst[ty] = r
        return r

    def transparent(self, ty):
        """index of the only field that carries data, for single-field structs"""
        t = self.T[ty]
        if t['k'] != 'adt' or t['adt'] != 'struct': return None
        nz = [i for i, (_, f) in enumerate(t['variants'][0]['fields']) if not self.is_zst(f)]
        return nz[0] if len(nz) == 1 else None

    def is_enum(self, ty):
        t = self.T[ty]
        return t['k'] == 'adt' and t['adt'] == 'enum'

    # ------------------------------------------------------------ symbols
    def lens(self, st, name):
        """what the known characters of a text say about its length ('C@' characters, 'B@' bytes)"""
        base = name[2:]; dom = st.dom; n = b = t = 0
        while True:
            d = dom.get('%s[%d]' % (base, n))
            if d is None: break
            lo, hi = d[0][0], d[-1][1]
            if hi < 0: return (b, t) if name[0] == 'B' else (n, n)
            if lo < 0: break
            n += 1
            if name[0] == 'B':
                b += 1 if lo < 0x80 else 2 if lo < 0x800 else 3 if lo < 0x10000 else 4
                t += 1 if hi < 0x80 else 2 if hi < 0x800 else 3 if hi < 0x10000 else 4
        return (b, ISIZE_MAX) if name[0] == 'B' else (n, ISIZE_MAX)

    def dom(self, st, name, ty):
        d = st.dom.get(name)
        if name[:2] in ('C@', 'B@'):
            k = self.lens(st, name)
            return (iv_inter(d, (k,)) or d) if d is not None else (k,)
        if d is not None: return d
        if name.startswith('discr(') and ty is not None and ty >= 0 and self.T[ty]['k'] == 'adt':
            return iv_norm([(v['discr'], v['discr']) for v in self.T[ty]['variants']])
        if name[:2] in ('C@', 'B@', 'N@') or name.startswith('find#'): return ((0, ISIZE_MAX),)
        return self.trange(ty) if ty is not None and ty >= 0 else ((-10**30, 10**30),)

    def refine(self, st, name, ty, new):
        """Meet the domain of a symbol; raises Infeasible."""
        d = iv_inter(self.dom(st, name, ty), new)
        if not d: raise Infeasible()
        old = st.dom.get(name)
        st.dom[name] = d
        if d != old and iv_size(d) <= 300: d = self.refilter(st, name, ty, d)
        h = self.hooks.get('refine')
        if h: h(self, st, name, d)

    def refilter(self, st, name, ty, d):
        """leave out values that contradict what is known of expressions over the symbol"""
        ks = [(('L', k[2], k[1]), b, None) for k, b in st.atoms.items() if k[0] == 'eq' and any(n[:2] == 'O:' and name in n for n, _ in k[1])]
        ks += [(('L', 0, k), None, r) for k, r in st.rel.items() if any(n[:2] == 'O:' and name in n for n, _ in k)]
        for v, b, r in ks:
            out = {}
            if not self.leaves(st, v, out) or list(out) != [name]: continue
            keep = []
            try:
                for lo, hi in d:
                    for x in range(lo, hi + 1):
                        y = self.evalat(st, v, {name: x})
                        if (y == 0) == b if r is None else r[0] <= y <= r[1]: keep.append((x, x))
            except (KeyError, Unsupported): continue
            d = iv_norm(keep)
            if not d: raise Infeasible()
            st.dom[name] = d
        return d

    # linear forms: ('L', const, ((name, coef), ...)) ; all symbols in it are mathematical ints
    def lin(self, st, v):
        """value -> (const, {sym: coef}) or None"""
        if isinstance(v, int): return v, {}
        if v[0] == 'S':
            if self.is_scalar(v[2]) if v[2] >= 0 else True:
                return self.lin_norm(st, 0, {v[1]: 1})
            return None
        if v[0] == 'L': return self.lin_norm(st, v[1], dict(v[2]))
        if v[0] == 'O':
            k = self.okey(v)
            st.x[k] = v
            return 0, {k: 1}
        return None

    def okey(self, v):
        r = repr(v[1:3])
        if len(r) > 400: r = v[1] + '(' + r[:60] + '..' + ('?' if '?' in r else '') + hashlib.sha1(r.encode()).hexdigest() + ')'
        return 'O:' + r

    def lin_norm(self, st, c, d):
        while True:
            c, d, more = self.lin_round(st, c, d)
            if not more: return c, d

    def lin_round(self, st, c, d):
        for n in list(d):
            dm = self.dom(st, n, None) if n[:2] in ('C@', 'B@') else st.dom.get(n)
            if dm and dm[0][0] == dm[-1][1]: c += d.pop(n) * dm[0][0]; continue
            if n[:2] == 'w:':
                w = self.hooks['widths'](st, n)
                if w is not None: c += d.pop(n) * w
        more = False
        if not st.subst: return c, d, False
        again = 64
        while again:
            if again < 0: raise Unsupported('cyclic substitution')
            rounds = again - 1; again = 0
            for n in list(d):
                s = st.subst.get(n)
                if s is not None:
                    k = d.pop(n); c += k * s[0]
                    for m, q in s[1].items():
                        d[m] = d.get(m, 0) + k * q
                        if d[m] == 0: del d[m]
                    again = rounds or -1; more = True
        return c, d, more

    def mklin(self, c, d, ty=None):
        d = {k: v for k, v in d.items() if v}
        if not d: return c
        return ('L', c, tuple(sorted(d.items())))

    def sym_iv(self, st, name):
        d = self.dom(st, name, None) if name[:2] in ('C@', 'B@') else st.dom.get(name)
        if d is not None: return d[0][0], d[-1][1]
        if name.startswith('O:'):
            v = st.x.get(name)
            return self.op_iv(st, v)
        if name[:2] in ('C@', 'B@', 'N@') or name.startswith('find#'): return 0, ISIZE_MAX
        ty = st.x.get(('ty', name))
        if ty is not None:
            r = self.trange(ty)
            if r: return r[0][0], r[-1][1]
        if name[:2] == 'w:': return 1, 4
        return -10**30, 10**30

    def op_iv(self, st, v):
        r = self.trange(v[3]) if v[3] is not None else None
        lo, hi = (r[0][0], r[-1][1]) if r else (-10**30, 10**30)
        op = v[1]
        if op not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'ovf'):
            p = self.points(st, (v,), 300)
            if p is not None:
                try:
                    vals = [self.evalat(st, v, dict(zip(p[0], q))) for q in p[2]]
                    return min(vals), max(vals)
                except (KeyError, Unsupported): pass
        if op == 'BitAnd':
            for a in v[2]:
                if isinstance(a, int) and a >= 0: hi = min(hi, a); lo = max(lo, 0)
        elif op == 'Rem' and isinstance(v[2][1], int): hi = min(hi, v[2][1] - 1)
        elif op == 'Div' and isinstance(v[2][1], int) and v[2][1] > 0:
            a, b = self.interval(st, v[2][0])
            if a >= 0: lo, hi = a // v[2][1], b // v[2][1]
        elif op == 'Div':
            a, b = self.interval(st, v[2][0]); c, d = self.interval(st, v[2][1])
            if a >= 0 and c >= 1: lo, hi = a // d, b // c
        elif op == 'Mul':
            a, b = self.interval(st, v[2][0]); c, d = self.interval(st, v[2][1])
            if a >= 0 and c >= 0: lo, hi = max(lo, a * c), min(hi, b * d)
        elif op == 'Shl' and isinstance(v[2][1], int) and r:
            a, b = self.interval(st, v[2][0]); k = v[2][1]
            hi = min(hi, (hi >> k) << k)
            if a >= 0 and (b << k) <= hi: lo, hi = a << k, b << k
            else: lo = 0 if lo >= 0 else lo
        elif op == 'wrap' and r and lo >= 0:
            k = self.tz(st, v[2][0])
            hi = (hi >> k) << k
        elif op == 'Shr' and isinstance(v[2][1], int):
            a, b = self.interval(st, v[2][0])
            if a >= 0: lo, hi = a >> v[2][1], b >> v[2][1]
        elif op in ('BitOr', 'BitXor'):
            a, b = self.interval(st, v[2][0]); c, d = self.interval(st, v[2][1])
            if a >= 0 and c >= 0:
                n = max(b, d).bit_length(); lo, hi = (max(a, c) if op == 'BitOr' else 0), min(hi, (1 << n) - 1)
        return lo, hi

    def interval(self, st, v):
        if isinstance(v, int): return v, v
        l = self.lin(st, v)
        if l is None:
            return -10**30, 10**30
        c, d = l
        if v[0] == 'S' and len(d) == 1 and v[1] in d:
            dd = self.dom(st, v[1], v[2])
            if dd: return dd[0][0], dd[-1][1]
        lo = hi = c
        for n, k in d.items():
            a, b = self.sym_iv(st, n)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        if len(d) >= 1:
            key = tuple(sorted(d.items()))
            f = st.rel.get(key)
            if f: lo = max(lo, f[0] + c); hi = min(hi, f[1] + c)
            nkey = tuple(sorted((n, -k) for n, k in d.items()))
            f = st.rel.get(nkey)
            if f: lo = max(lo, c - f[1]); hi = min(hi, c - f[0])
        return lo, hi

    def add_rel(self, st, d, lo, hi):
        """lo <= d <= hi; values the form is known not to have are taken off the ends"""
        key = tuple(sorted(d.items()))
        if key and key[0][1] < 0:
            d = {n: -k for n, k in d.items()}; key = tuple(sorted(d.items())); lo, hi = -hi, -lo
        a, b = self.interval(st, ('L', 0, key)) if key else (0, 0)
        a = max(a, lo); b = min(b, hi)
        while a <= b and st.atoms.get(('eq', key, -a)) is False: a += 1
        while a <= b and st.atoms.get(('eq', key, -b)) is False: b -= 1
        if a > b: raise Infeasible()
        st.rel[key] = (a, b)

    # ------------------------------------------------------------ deciding comparisons
    def truth(self, st, v):
        """True/False or raise Split on a condition value."""
        if isinstance(v, int): return v != 0
        k = v[0]
        if k == 'S':
            d = self.dom(st, v[1], v[2])
            if d == ((0, 0),): return False
            if d[0][0] > 0: return True
            self.split_dom(v[1], v[2], [((0, 0),), ((1, 1),)])
        if k == 'O':
            op = v[1]
            if op == 'Not': return not self.truth(st, v[2][0])
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.compare(st, op, v[2][0], v[2][1])
            if op == 'ovf':
                r = self.ovf(st, v)
                if r is not None: return r
            if op in ('BitAnd', 'BitOr', 'BitXor') and v[3] is not None and self.T[v[3]]['k'] == 'bool':
                a = self.truth(st, v[2][0])
                if op == 'BitAnd' and not a: return False
                if op == 'BitOr' and a: return True
                b = self.truth(st, v[2][1])
                return (a and b) if op == 'BitAnd' else (a or b) if op == 'BitOr' else (a != b)
        key = repr(v)
        if key in st.atoms: return st.atoms[key]
        self.split_atom(key)

    def split_atom(self, key):
        def mk(b):
            def f(st): st.atoms[key] = b
            return f
        raise Split([mk(True), mk(False)], 'atom:' + key)

    def split_dom(self, name, ty, parts):
        def mk(d):
            def f(st): self.refine(st, name, ty, d)
            return f
        raise Split([mk(p) for p in parts if p], name)

    def ovf(self, st, v):
        op, a, b, ty = v[2]
        r = self.trange(ty)
        lo, hi = self.arith_iv(st, op, a, b)
        if lo >= r[0][0] and hi <= r[-1][1]: return False
        if hi < r[0][0] or lo > r[-1][1]: return True
        return None

    # ------------------------------------------------------------ values that depend on few known possibilities
    def leaves(self, st, v, out, depth=0):
        """collect the symbols a scalar depends on; False if that is not known"""
        if isinstance(v, int): return True
        if depth > 12 or len(out) > 2: return False
        if v[0] == 'S':
            if not (v[2] >= 0 and self.is_scalar(v[2]) or v[1] in st.dom): return False
            if v[1] in st.subst or is_havoc(v[1]): return False
            out[v[1]] = v[2]; return True
        if v[0] == 'L':
            for n, _ in v[2]:
                if n[:2] == 'O:':
                    w = st.x.get(n)
                    if w is None or not self.leaves(st, w, out, depth + 1): return False
                elif n[:2] == 'w:' or n in st.subst or is_havoc(n): return False
                else: out[n] = st.x.get(('ty', n), -1)
            return True
        if v[0] == 'O':
            op, args = v[1], v[2]
            if op == 'ovf': args = args[1:3]
            elif op == 'cast': args = args[:1]
            elif op not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'wrap', 'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor'): return False
            return all(self.leaves(st, x, out, depth + 1) for x in args)
        return False

    def evalat(self, st, v, env):
        """the value under an assignment of its symbols (KeyError / Unsupported if it has none)"""
        if isinstance(v, int): return v
        if v[0] == 'S': return env[v[1]]
        if v[0] == 'L': return v[1] + sum(k * (self.evalat(st, st.x[n], env) if n[:2] == 'O:' else env[n]) for n, k in v[2])
        op, args, ty = v[1], v[2], v[3]
        if op == 'ovf':
            b, x, y, t = args
            x = self.evalat(st, x, env); y = self.evalat(st, y, env)
            e = x + y if b == 'Add' else x - y if b == 'Sub' else x * y
            return int(self.wrap(t, e) != e)
        if op == 'cast': return self.wrap(ty, self.evalat(st, args[0], env))
        xs = [self.evalat(st, x, env) for x in args]
        if op == 'wrap': return self.wrap(ty, xs[0])
        if op == 'Not': return 1 - xs[0] if ty is None or self.T[ty]['k'] == 'bool' else self.wrap(ty, ~xs[0])
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return int(self.compare(st, op, *xs))
        if op in ('Div', 'Rem') and xs[1] == 0: raise Unsupported('division by zero')
        return self.binop(st, op + 'Unchecked' if op in ('Add', 'Sub', 'Mul') else op, xs[0], xs[1], ty)

    def points(self, st, vs, limit):
        """[(symbols), assignments] of what the values depend on, if that is few"""
        out = {}
        for v in vs:
            if not self.leaves(st, v, out): return None
        if not out or len(out) > 2: return None
        names = sorted(out); doms = []; size = 1
        for n in names:
            dm = st.dom.get(n) or (self.dom(st, n, out[n]) if out[n] >= 0 else None)
            z = st.bits.get(n)
            if z and z != (0, 0) or not dm: return None
            size *= iv_size(dm)
            if size > limit: return None
            doms.append([x for l, h in dm for x in range(l, h + 1)])
        if len(names) == 1: return names, out, [(x,) for x in doms[0]]
        return names, out, [(x, y) for x in doms[0] for y in doms[1]]

    def cases(self, st, op, a, b):
        """split the values of a symbol by the outcome of a comparison that is not linear in it"""
        def hard(v): return not isinstance(v, int) and (v[0] == 'O' and v[1] not in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'ovf') or v[0] == 'L' and any(n[:2] == 'O:' for n, _ in v[2]))
        if not hard(a) and not hard(b): return
        p = self.points(st, (a, b), 300)
        if p is None or len(p[0]) != 1: return
        (n,), tys, pts = p
        yes = []; no = []
        try:
            for q in pts:
                env = {n: q[0]}
                x, y = self.evalat(st, a, env), self.evalat(st, b, env)
                (yes if (x == y if op == 'Eq' else x < y) else no).append((q[0], q[0]))
        except (KeyError, Unsupported): return
        if yes and no: self.split_dom(n, tys[n], [iv_norm(yes), iv_norm(no)])
        return bool(yes)

    def table(self, st, v, final):
        """a value with few possibilities, by what it is for each of them"""
        p = self.points(st, (v,), 300)
        if p is None: return None
        names, tys, pts = p
        try: vals = [self.evalat(st, v, dict(zip(names, q))) for q in pts]
        except (KeyError, Unsupported): return None
        if len(set(vals)) == 1: return vals[0]
        ks = []
        for i, n in enumerate(names):
            k = 0
            for j, q in enumerate(pts):
                if q[i] != pts[0][i] and all(q[o] == pts[0][o] for o in range(len(names)) if o != i):
                    k = (vals[j] - vals[0]) // (q[i] - pts[0][i]); break
            ks.append(k)
        c = vals[0] - sum(k * x for k, x in zip(ks, pts[0]))
        if all(w == c + sum(k * x for k, x in zip(ks, q)) for w, q in zip(vals, pts)):
            d = {n: k for n, k in zip(names, ks) if k}
            if c == 0 and len(d) == 1 and list(d.values()) == [1] and tys[list(d)[0]] >= 0: return ('S', list(d)[0], tys[list(d)[0]])
            return self.mklin(c, d)
        return ('tab', tuple(names), tuple(vals)) if final else None

    def arith_iv(self, st, op, a, b):
        la, lb = self.lin(st, a), self.lin(st, b)
        if op in ('Add', 'Sub') and la and lb:
            s = 1 if op == 'Add' else -1
            d = dict(la[1])
            for n, k in lb[1].items(): d[n] = d.get(n, 0) + s * k
            return self.interval(st, self.mklin(la[0] + s * lb[0], d))
        x = self.interval(st, a); y = self.interval(st, b)
        c = [p * q for p in x for q in y]
        return min(c), max(c)

    def compare(self, st, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        if op == 'Ne': return not self.compare(st, 'Eq', a, b)
        if op == 'Gt': return self.compare(st, 'Lt', b, a)
        if op == 'Ge': return self.compare(st, 'Le', b, a)
        if op == 'Le': return not self.compare(st, 'Lt', b, a)
        # bool operands that are conditions
        if op == 'Eq':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(x, int) and x[0] == 'O' and (
                        x[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'ovf')):
                    t = self.truth(st, x)
                    return (1 if t else 0) == y
            if a == b: return True
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(x, int):
                    r = self.bit_eq(st, x, y)
                    if r is not None: return r
        known = self.cases(st, op, a, b)
        if known is not None: return known
        la, lb = self.lin(st, a), self.lin(st, b)
        if la is None or lb is None:
            if a == b and op == 'Eq': return True
            key = repr((op, a, b))
            if key in st.atoms: return st.atoms[key]
            self.split_atom(key)
        c = la[0] - lb[0]; d = dict(la[1])
        for n, k in lb[1].items():
            d[n] = d.get(n, 0) - k
            if d[n] == 0: del d[n]
        # d + c  (op) 0
        if not d: return c == 0 if op == 'Eq' else c < 0
        if len(d) == 1:
            (n, k), = d.items()
            if abs(k) == 1 and not n.startswith('O:'):
                ty = next((x[2] for x in (a, b) if not isinstance(x, int) and x[0] == 'S' and x[1] == n), st.x.get(('ty', n), -1))
                dm = self.dom(st, n, ty) if (ty >= 0 or n in st.dom) else (self.sym_iv(st, n),)
                if op == 'Eq':
                    v = -c * k
                    sat = ((v, v),)
                else:
                    sat = ((-10**40, -c - 1),) if k == 1 else ((c + 1, 10**40),)
                yes = iv_inter(dm, sat); no = iv_minus(dm, sat)
                if not no: return True
                if not yes: return False
                self.split_dom(n, ty, [yes, no])
        lo, hi = self.interval(st, self.mklin(c, d))
        if op == 'Eq':
            if lo > 0 or hi < 0: return False
            if lo == hi == 0: return True
        else:
            if hi < 0: return True
            if lo >= 0: return False
        if op == 'Eq':
            # normalise sign
            items = sorted(d.items())
            if items[0][1] < 0: d = {n: -k for n, k in d.items()}; c = -c
            key = ('eq', tuple(sorted(d.items())), c)
            if key in st.atoms: return st.atoms[key]

            def yes(st): st.atoms[key] = True; self.add_rel(st, d, -c, -c)

            def no(st):
                st.atoms[key] = False
                if lo == 0 or hi == 0: self.add_rel(st, d, -10**30, 10**30)
            raise Split([yes, no], repr(key))

        def yes(st): self.add_rel(st, d, -10**30, -c - 1)

        def no(st): self.add_rel(st, d, -c, 10**30)
        raise Split([yes, no], repr(d))

    # ------------------------------------------------------------ bits
    def width(self, ty):
        t = self.T[ty]
        return t['bits'] if t['k'] == 'int' else 1 if t['k'] == 'bool' else 32

    def bit(self, st, v, i, exact=False):
        """0/1, ('b', sym, ty, j) for an undetermined base bit, or None.  Unless the bit has to be exact, an undetermined
        bit only says what the result depends on."""
        if isinstance(v, int): return (v >> i) & 1
        if v[0] == 'S':
            z, o = st.bits.get(v[1], (0, 0))
            if (z >> i) & 1: return 0
            if (o >> i) & 1: return 1
            d = st.dom.get(v[1])
            if d and iv_size(d) == 1: return (d[0][0] >> i) & 1
            if d is None and v[2] >= 0: d = self.trange(v[2])
            if d and d[0][0] >= 0 and d[-1][1] < 1 << i: return 0
            return ('b', v[1], v[2], i)
        if v[0] == 'O':
            op = v[1]
            if op == 'Not' and v[3] is not None:
                x = self.bit(st, v[2][0], i, exact)
                return 1 - x if isinstance(x, int) else None if exact else x
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                x = self.bit(st, v[2][0], i, exact); y = self.bit(st, v[2][1], i, exact)
                if op == 'BitAnd' and (x == 0 or y == 0): return 0
                if op == 'BitOr' and (x == 1 or y == 1): return 1
                if x is None or y is None: return None
                if op == 'BitAnd':
                    if x == 1: return y
                    if y == 1 or x == y: return x
                elif op == 'BitOr':
                    if x == 0: return y
                    if y == 0 or x == y: return x
                else:
                    if isinstance(x, int) and isinstance(y, int): return x ^ y
                    if x == 0: return y
                    if y == 0: return x
                    if x == y: return 0
                if exact: return None
                return x if not isinstance(x, int) else y
            if op in ('Shl', 'Shr') and isinstance(v[2][1], int) and v[3] is not None:
                k = v[2][1]
                if op == 'Shl': return 0 if i < k else self.bit(st, v[2][0], i - k, exact)
                if not self.T[v[3]].get('signed'): return 0 if i + k >= self.width(v[3]) else self.bit(st, v[2][0], i + k, exact)
                return None
            if op == 'cast':
                ft = v[2][1]
                if i < self.width(ft): return self.bit(st, v[2][0], i, exact)
                return 0 if not self.T[ft].get('signed') else None
        if v[0] == 'L':
            p = self.linparts(st, v)
            if p is None: return None
            for lo, hi, s in p:
                if lo <= i < hi: return self.bit(st, s, i - lo, exact) if not isinstance(s, int) else (s >> (i - lo)) & 1
            return 0
        return None

    def linparts(self, st, v):
        """a sum whose terms occupy different bits: [(first bit, end, symbol or constant)]"""
        c, terms = v[1], v[2]
        if c < 0: return None
        out = []; used = 0
        for n, k in terms:
            if k <= 0 or k & (k - 1) or n[:2] in ('O:', 'w:', 'C@', 'B@', 'N@'): return None
            lo, hi = self.sym_iv(st, n)
            ty = st.x.get(('ty', n), -1)
            if lo < 0 or hi >= 1 << 64 or ty < 0: return None
            s = k.bit_length() - 1; w = hi.bit_length()
            m = ((1 << w) - 1) << s
            if used & m: return None
            used |= m; out.append((s, s + w, ('S', n, ty)))
        if c & used: return None
        i = 0
        while c >> i:
            if (c >> i) & 1: out.append((i, i + 1, 1))
            i += 1
        return out

    def bit_eq(self, st, x, c):
        if x[0] == 'S':
            if x[1] not in st.bits and not st.x.get(('bf', x[1])): return None
        elif x[0] != 'O' or x[1] not in ('BitAnd', 'BitOr', 'BitXor', 'Not', 'Shl', 'Shr'): return None
        ty = x[3] if x[0] == 'O' else x[2]
        if ty is None or self.T[ty]['k'] != 'int': return None
        w = self.width(ty); und = None
        for i in range(w):
            b = self.bit(st, x, i)
            if b is None: return None
            if isinstance(b, int):
                if b != (c >> i) & 1: return False
            elif und is None: und = b
        if und is None: return True
        _, n, t, j = und
        self.split_bit(n, j)

    def split_bit(self, n, j):
        def mk(b):
            def f(st):
                z, o = st.bits.get(n, (0, 0))
                if b: o |= 1 << j
                else: z |= 1 << j
                if z & o: raise Infeasible()
                st.bits[n] = (z, o)
            return f
        raise Split([mk(1), mk(0)], '%s.bit%d' % (n, j))

    # ------------------------------------------------------------ values
    def proj_field(self, st, v, i, fty, var=None):
        """field i of aggregate value v (variant var for enums)"""
        if isinstance(v, int): raise Unsupported('field of int')
        k = v[0]
        if k == 'A':
            if i >= len(v[3]) and self.T[v[1]]['k'] == 'closure' and self.is_zst(fty): return self.sym(st, '', fty)
            return v[3][i]
        if k == 'S':
            ty = v[2]
            h = self.hooks.get('proj')
            if h:
                r = h(self, st, v, i, fty, var)
                if r is not None: return r
            t = self.T[ty]
            if t['k'] == 'adt':
                vv = t['variants'][var or 0]
                fn = vv['fields'][i][0]
                if t['adt'] == 'enum':
                    nm = v[1] + '.' + vv['name'] + ('' if len(vv['fields']) == 1 else '.' + fn)
                elif self.transparent(ty) is not None:
                    if self.is_zst(fty): return self.sym(st, v[1] + '.' + fn, fty)
                    nm = v[1]
                    if self.T[fty]['k'] == 'int' and 'InternalBitFlags' in t['path']: st.x[('bf', nm)] = True
                else: nm = v[1] + '.' + fn
            else:
                nm = '%s.%d' % (v[1], i)
            return self.sym(st, nm, fty)
        if k == 'V': return self.hooks['vfield'](self, st, v, i, fty, var)
        if k == 'X':  # extension value understood by models
            h = self.hooks.get('xfield')
            r = h(self, st, v, i, fty) if h else None
            if r is not None: return r
        raise Unsupported('field of %r' % (v,))

    def sym(self, st, name, ty):
        t = self.T[ty]
        if t['k'] in ('bool', 'char', 'int'):
            st.x[('ty', name)] = ty
            d = st.dom.get(name)
            if d and iv_size(d) == 1: return d[0][0]
        elif t['k'] == 'tuple' and not t['fields']:
            return ('A', ty, 0, ())
        elif t['k'] == 'fndef': return ('F', self.p.fn_of_type(ty, self.side), ty)
        elif t['k'] == 'adt' and t['adt'] == 'struct' and not t['variants'][0]['fields']:
            return ('A', ty, 0, ())
        return ('S', name, ty)

    def materialize(self, st, v, var=None):
        if v[0] == 'A': return v
        if v[0] == 'S':
            fts = self.field_types(v[2], var or 0)
            if fts is None: raise Unsupported('materialize %r %s' % (v, self.T[v[2]]['s']))
            return ('A', v[2], var or 0, tuple(self.proj_field(st, v, i, ft, var) for i, (n, ft) in enumerate(fts)))
        raise Unsupported('materialize %r' % (v,))

    def read(self, st, obj, path):
        v = self.getobj(st, obj)
        i = 0; var = None
        for el in path:
            if el[0] == 'd': var = el[1]; continue
            if el[0] == 'f': v = self.proj_field(st, v, el[1], el[2], var)
            else: v = self.index(st, v, el)
            var = None
        return v

    def getobj(self, st, obj):
        v = st.objs.get(obj)
        if v is None:
            if obj[0] == '*':
                nm, ty = obj[1], obj[2]
                v = self.sym(st, nm + '*', ty)
                st.objs[obj] = v
            else:
                h = self.hooks.get('obj')
                v = h(self, st, obj) if h else None
                if v is None: raise Unsupported('uninit %r' % (obj,))
                st.objs[obj] = v
        return v

    def index(self, st, v, el):
        if el[0] == 'x':
            k = el[1]
            if v[0] == 'A':
                if isinstance(k, int):
                    if 0 <= k < len(v[3]): return v[3][k]
                    raise Infeasible()
                k = self.concretize(st, k)
                if 0 <= k < len(v[3]): return v[3][k]
                raise Infeasible()
            h = self.hooks.get('index')
            r = h(self, st, v, k) if h else None
            if r is not None: return r
        raise Unsupported('index %r %r' % (v, el))

    def concretize(self, st, k, limit=64):
        """Force an integer expression to a concrete value by partitioning its base symbol."""
        if isinstance(k, int): return k
        l = self.lin(st, k)
        if l and len(l[1]) == 1:
            (n, q), = l[1].items()
            if not n.startswith('O:'):
                ty = st.x.get(('ty', n), -1)
                d = self.dom(st, n, ty) if ty >= 0 or n in st.dom else None
                if d and iv_size(d) <= limit:
                    if iv_size(d) == 1: return l[0] + q * d[0][0]
                    self.split_dom(n, ty, [((x, x),) for lo, hi in d for x in range(lo, hi + 1)])
        lo, hi = self.interval(st, k)
        if lo == hi: return lo
        raise Unsupported('concretize %r' % (k,))

    def write(self, st, obj, path, val):
        if not path:
            st.objs[obj] = val; return
        root = self.getobj(st, obj)
        st.objs[obj] = self.upd(st, root, path, 0, val)
        h = self.hooks.get('write')
        if h: h(self, st, obj, path, val)

    def upd(self, st, v, path, i, val):
        if i == len(path): return val
        el = path[i]; var = None
        if el[0] == 'd':
            var = el[1]; i += 1; el = path[i]
        if el[0] == 'f':
            if v[0] == 'X' :
                h = self.hooks.get('xupd')
                r = h(self, st, v, path, i, val) if h else None
                if r is not None: return r
            v = self.materialize(st, v, var)
            fs = list(v[3]); fs[el[1]] = self.upd(st, fs[el[1]], path, i + 1, val)
            return ('A', v[1], v[2], tuple(fs))
        if el[0] == 'x':
            k = self.concretize(st, el[1])
            if v[0] == 'A':
                fs = list(v[3])
                if not 0 <= k < len(fs): raise Infeasible()
                fs[k] = self.upd(st, fs[k], path, i + 1, val)
                return ('A', v[1], v[2], tuple(fs))
            h = self.hooks.get('xupd')
            r = h(self, st, v, path, i, val) if h else None
            if r is not None: return r
        raise Unsupported('write through %r' % (v,))

    # ------------------------------------------------------------ places
    def loc(self, st, fr, place):
        obj = (fr.fid, place[0]); path = ()
        n = len(place)
        for pi in range(1, n):
            pr = place[pi]
            if pr == '*':
                v = self.read(st, obj, path)
                r = self.deref(st, v)
                if r[0] == 'val':
                    if pi == n - 1: return r
                    # further projection into a value
                    st.nfid += 1
                    obj = ('tmp', st.nfid); st.objs[obj] = r[1]; path = ()
                else: obj, path = r[1], r[2]
            elif pr[0] == 'f': path = path + (('f', pr[1], pr[2]),)
            elif pr[0] == 'd': path = path + (('d', pr[1]),)
            elif pr[0] == 'i':
                k = self.read(st, (fr.fid, pr[1]), ())
                path = path + (('x', k),)
            elif pr[0] == 'ci':
                if pr[3]:
                    v = self.read(st, obj, path)
                    ln = self.seqlen(st, v)
                    k = self.binop(st, 'Sub', ln, pr[1], self.uty)
                else: k = pr[1]
                path = path + (('x', k),)
            elif pr[0] == 'sub':
                v = self.read(st, obj, path)
                h = self.hooks.get('subslice')
                return ('val', h(self, st, v, pr[1], pr[2], pr[3]))
            else: raise Unsupported('proj %r' % (pr,))
        return ('loc', obj, path)

    def seqlen(self, st, v):
        if v[0] == 'A': return len(v[3])
        h = self.hooks.get('seqlen')
        r = h(self, st, v) if h else None
        if r is None: raise Unsupported('len of %r' % (v,))
        return r

    def deref(self, st, v):
        if isinstance(v, int): raise Unsupported('deref int')
        if v[0] == 'R': return ('loc', v[1], v[2])
        if v[0] == 'S':
            t = self.T[v[2]]
            if t['k'] in ('ref', 'ptr'):
                h = self.hooks.get('deref')
                r = h(self, st, v) if h else None
                if r is not None: return r
                return ('loc', ('*', v[1], t['to']), ())
            raise Unsupported('deref %r' % (v,))
        return ('val', v)

    def get(self, st, fr, place):
        r = self.loc(st, fr, place)
        if r[0] == 'val': return r[1]
        return self.read(st, r[1], r[2])

    def set(self, st, fr, place, v):
        r = self.loc(st, fr, place)
        if r[0] == 'val': raise Unsupported('assign to value place')
        self.write(st, r[1], r[2], v)

    # ------------------------------------------------------------ constants and operands
    def const(self, st, c, ty):
        k = c['k']
        if k == 'i': return c['v'] if not isinstance(c['v'], bool) else int(c['v'])
        if k == 'str': return ('T', c['v'])
        if k == 'fn': return ('F', c['id'], ty)
        if k == 'zst':
            t = self.T[ty]
            if t['k'] == 'fndef': return ('F', self.p.fn_of_type(ty, self.side), ty)
            if t['k'] == 'closure': return ('A', ty, 0, ())
            return ('A', ty, 0, ())
        if k == 'ref':
            inner = c['v']
            t = self.T[ty]
            to = t.get('to')
            if inner['k'] == 'str': return ('T', inner['v'])
            oid = ('const', json.dumps(inner, sort_keys=True), to)
            if oid not in st.objs: st.objs[oid] = self.const(st, inner, to)
            if self.T[to]['k'] == 'slice':
                v = st.objs[oid]
                return ('X', 'slice', (oid, ()), 0, len(v[3]))
            return ('R', oid, ())
        if k == 'agg':
            t = self.T[ty]
            if t['k'] in ('array', 'slice'):
                return ('A', ty, 0, tuple(self.const(st, x, t['to']) for x in c['f']))
            fts = self.field_types(ty, 0)
            return ('A', ty, 0, tuple(self.const(st, x, ft) for x, (n, ft) in zip(c['f'], fts)))
        if k == 'adt':
            fts = self.field_types(ty, c['var'])
            return ('A', ty, c['var'], tuple(self.const(st, x, ft) for x, (n, ft) in zip(c['f'], fts)))
        if k == 'static':
            return self.sym(st, 'static:' + c['path'], ty)
        if k == 'promoted':
            oid = ('prom', c['id'])
            if oid not in st.objs:
                v = self.nested(st, c['id'], [])
                if self.T[ty]['k'] not in ('ref', 'ptr'): return v
                if not isinstance(v, int) and v[0] in ('R', 'T', 'X'): return v
                st.objs[oid] = v
            return ('R', oid, ())
        return self.sym(st, st.fresh('?const'), ty)

    def operand(self, st, fr, op):
        k = op[0]
        if k in ('c', 'm'): return self.get(st, fr, op[1])
        if k == 'k': return self.const(st, op[2], op[1])
        if k == 'rc': return 1
        raise Unsupported('operand %r' % (op,))

    # ------------------------------------------------------------ rvalues
    def wrap(self, ty, v):
        t = self.T[ty]
        if t['k'] == 'int':
            b = t['bits']; v &= (1 << b) - 1
            if t['signed'] and v >> (b - 1): v -= 1 << b
        elif t['k'] == 'bool': v &= 1
        return v

    def binop(self, st, op, a, b, ty):
        """ty is the operand type"""
        ai, bi = isinstance(a, int), isinstance(b, int)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if ai and bi: return int(self.compare(st, op, a, b))
            return ('O', op, (a, b), self.ubool)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            over = op.endswith('WithOverflow')
            if ai and bi:
                e = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
                w = self.wrap(ty, e)
                if over: return ('P', w, int(w != e))
                return w
            la, lb = self.lin(st, a), self.lin(st, b)
            val = None
            if base in ('Add', 'Sub') and la and lb:
                s = 1 if base == 'Add' else -1
                d = dict(la[1])
                for n, k in lb[1].items(): d[n] = d.get(n, 0) + s * k
                val = self.mklin(la[0] + s * lb[0], d)
            elif base == 'Mul' and la and lb and (ai or bi):
                k = a if ai else b; l = lb if ai else la
                val = self.mklin(l[0] * k, {n: q * k for n, q in l[1].items()})
            else: val = ('O', base, (a, b), ty)
            if over:
                o = ('O', 'ovf', (base, a, b, ty), self.ubool)
                r = self.ovf(st, o)
                if r is not None: o = int(r)
                if r is False: val = self.mkwrap(st, val, ty)
                return ('P', val, o)
            return self.mkwrap(st, val, ty)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if ai and bi: return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
            if base == 'BitOr':
                if a == 0 and ai: return b
                if b == 0 and bi: return a
                if a == b: return a
            if base == 'BitAnd':
                if (ai and a == 0) or (bi and b == 0): return 0
                full = (1 << self.width(ty)) - 1
                if ai and a == full: return b
                if bi and b == full: return a
            if self.T[ty]['k'] == 'int':
                v = ('O', base, (a, b), ty)
                bits = [self.bit(st, v, i) for i in range(self.width(ty))]
                if all(isinstance(x, int) for x in bits):
                    return self.wrap(ty, sum(x << i for i, x in enumerate(bits)))
                if base in ('BitOr', 'BitXor') and any(x is None for x in bits):
                    # no common bits: an addition
                    for x, y in ((a, b), (b, a)):
                        k = self.tz(st, x)
                        lo, hi = self.interval(st, y)
                        if k and 0 <= lo and hi < 1 << k and self.lin(st, x) and self.lin(st, y): return self.binop(st, 'Add', x, y, ty)
                return v
            return ('O', base, (a, b), ty)
        if base == 'Shl':
            if ai and bi: return self.wrap(ty, a << (b % self.width(ty)))
            if bi and self.T[ty]['k'] == 'int' and 0 <= b < self.width(ty) and self.lin(st, a) and self.bit(st, a, 0) is None:
                return self.binop(st, 'Mul', a, 1 << b, ty)
            return ('O', 'Shl', (a, b), ty)
        if base == 'Shr':
            if ai and bi: return a >> b
            return ('O', 'Shr', (a, b), ty)
        if base in ('Div', 'Rem'):
            if ai and bi and b: return a // b if base == 'Div' else a % b
            if bi and b == 1: return a if base == 'Div' else 0
            return ('O', base, (a, b), ty)
        if base == 'Cmp':
            raise Unsupported('Cmp')
        if base == 'Offset': raise Unsupported('ptr offset')
        raise Unsupported('binop ' + op)

    def tz(self, st, v):
        """number of low bits known to be zero"""
        if isinstance(v, int): return (v & -v).bit_length() - 1 if v else 64
        if v[0] == 'O':
            if v[1] == 'wrap': return self.tz(st, v[2][0])
            if v[1] == 'Shl' and isinstance(v[2][1], int): return v[2][1] + self.tz(st, v[2][0])
            return 0
        if v[0] == 'L':
            k = 64
            for c in (v[1],) + tuple(q for _, q in v[2]):
                if c: k = min(k, (c & -c).bit_length() - 1)
            return k
        return 0

    def mkwrap(self, st, val, ty):
        """a value of the type that is congruent to the linear form"""
        if isinstance(val, int): return self.wrap(ty, val)
        if val[0] != 'L' or self.T[ty]['k'] != 'int': return val
        c, d = val[1], dict(val[2]); inner = False
        for _ in range(8):
            w = [(n, st.x[n]) for n in d if n.startswith('O:') and n in st.x and st.x[n][1] == 'wrap' and st.x[n][3] == ty]
            if not w: break
            for n, o in w:
                l = self.lin(st, o[2][0])
                k = d.pop(n); c += k * l[0]; inner = True
                for m, q in l[1].items():
                    d[m] = d.get(m, 0) + k * q
                    if not d[m]: del d[m]
        r = self.trange(ty)
        if inner: val = self.mklin(c, d)
        if isinstance(val, int): return self.wrap(ty, val)
        lo, hi = self.interval(st, val)
        if r and (lo < r[0][0] or hi > r[-1][1]):
            m = 1 << self.width(ty)
            d = {n: q % m for n, q in dict(val[2]).items() if q % m}
            val = self.mklin(val[1] % m, d)
            if isinstance(val, int): return self.wrap(ty, val)
            return ('O', 'wrap', (val,), ty)
        return val

    def cast(self, st, kind, v, to, frm):
        kd = kind if isinstance(kind, str) else str(kind)
        if 'IntToInt' in kd or 'Transmute' in kd and self.is_scalar(to) and self.is_scalar(frm):
            r = self.trange(to)
            if isinstance(v, int): return self.wrap(to, v)
            if v[0] == 'S' and v[2] >= 0 and self.T[v[2]]['k'] == 'adt': return ('O', 'cast', (v, frm), to)
            # condition used as an integer
            lo, hi = self.interval(st, v)
            if v[0] == 'O' and v[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'ovf'):
                if self.T[to]['k'] != 'bool': return int(self.truth(st, v))
            if r and r[0][0] <= lo and hi <= r[-1][1]: return v
            return ('O', 'cast', (v, frm), to)
        if 'Unsize' in kd:
            tf = self.T[frm]; tt = self.T[to]
            h = self.hooks.get('unsize')
            r = h(self, st, v, to, frm) if h else None
            if r is not None: return r
            return v
        if 'ReifyFnPointer' in kd or 'ClosureFnPointer' in kd: return v
        if 'PtrToPtr' in kd: return v
        if 'Transmute' in kd:
            if v[0] in ('R', 'T', 'X', 'F') if not isinstance(v, int) else False: return v
            # newtype transmutes
            if not isinstance(v, int) and v[0] == 'A' and len(v[3]) == 1 and self.is_scalar(to): return v[3][0]
            st.x['havoc'] = st.x.get('havoc', ()) + ('transmute',)
            return self.sym(st, st.fresh('?transmute'), to)
        raise Unsupported('cast ' + kd)

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k in ('ref', 'rawptr'):
            r = self.loc(st, fr, rv[2])
            if r[0] == 'val': return r[1]
            # reborrow of an unsized object value
            if len(rv[2]) > 1:
                v = None
                try: v = self.read(st, r[1], r[2])
                except Unsupported: v = None
                if v is not None and not isinstance(v, int) and (v[0] == 'T' or v[0] == 'X' and v[1] in ('str', 'slice')):
                    if rv[2][-1] == '*': return v
            return ('R', r[1], r[2])
        if k == 'bin':
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            h = self.hooks.get('binop')
            if h:
                r = h(self, st, rv[1], a, b, rv[4])
                if r is not None: return self.pairfix(r, dty)
            return self.pairfix(self.binop(st, rv[1], a, b, rv[4]), dty)
        if k == 'un':
            op = rv[1]; v = self.operand(st, fr, rv[2])
            if op == 'Not':
                if isinstance(v, int):
                    return 1 - v if self.T[dty]['k'] == 'bool' else self.wrap(dty, ~v)
                return ('O', 'Not', (v,), dty)
            if op == 'Neg':
                if isinstance(v, int): return self.wrap(dty, -v)
                l = self.lin(st, v)
                return self.mklin(-l[0], {n: -q for n, q in l[1].items()})
            if op == 'PtrMetadata':
                if v[0] == 'R':
                    vv = self.read(st, v[1], v[2]); return self.seqlen(st, vv)
                return self.seqlen(st, v)
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        if k == 'discr': return self.discr(st, self.get(st, fr, rv[1]), rv[2])
        if k == 'agg':
            ak = rv[1]; ops = tuple(self.operand(st, fr, o) for o in rv[3])
            if ak[0] == 'rawptr': return ops[0]
            var = ak[1] if ak[0] == 'adt' and len(ak) > 1 else 0
            return ('A', rv[2], var, ops)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1]); n = self.T[dty].get('len')
            return ('A', dty, 0, (v,) * n)
        raise Unsupported('rvalue ' + k)

    def pairfix(self, v, dty):
        if not isinstance(v, int) and v[0] == 'P': return ('A', dty, 0, (v[1], v[2]))
        return v

    def discr(self, st, v, ty):
        if isinstance(v, int): return v
        if v[0] == 'V': return v
        if v[0] == 'A': return self.T[v[1]]['variants'][v[2]]['discr'] if self.T[v[1]]['k'] == 'adt' else 0
        if v[0] == 'S':
            h = self.hooks.get('discr')
            r = h(self, st, v) if h else None
            if r is not None: return r
            n = 'discr(%s)' % v[1]
            d = st.dom.get(n)
            if d and iv_size(d) == 1: return d[0][0]
            st.x[('ety', n)] = v[2]
            if d is None:
                st.dom[n] = iv_norm([(x['discr'], x['discr']) for x in self.T[v[2]]['variants'] if not self.uninhabited(x)])
                if iv_size(st.dom[n]) == 1: return st.dom[n][0][0]
            return ('S', n, -1)
        if v[0] == 'X':
            h = self.hooks.get('xdiscr')
            r = h(self, st, v) if h else None
            if r is not None: return r
        raise Unsupported('discr %r' % (v,))

    def uninhabited(self, var):
        return any(self.T[f]['k'] == 'never' or self.T[f]['s'] == 'std::convert::Infallible' for _, f in var['fields'])

    # ------------------------------------------------------------ running
    def run(self, fid, args, st=None, setup=None):
        """Analyse function fid; returns the list of final states (outcome set)."""
        st = st or State()
        st.events = list(st.events)
        self.push(st, fid, args, ('ret', 0), None)
        if setup: setup(st)
        return self.explore(st)

    def nested(self, st, fid, args):
        """Result of a call analysed to completion on the spot (no joins: a split is
        raised to the caller, whose call is then re-executed on each part)."""
        n = st.copy(); n.frames = []; n.outcome = None
        depth = self._nest = getattr(self, '_nest', 0) + 1
        try:
            if depth > 12: raise Unsupported('nesting')
            self.push(n, fid, args, None, None)
            while True:
                try: r = self.step_until(n)
                except Infeasible:
                    if n.outcome is not None: st.outcome = n.outcome
                    raise
                if r is None: break
                if len(r) != 1: raise Unsupported('fork in a nested call')
                n = r[0]
            if n.outcome is not None and n.outcome[0] in ('panic', 'diverge'):
                st.outcome = n.outcome; raise Infeasible()
        finally: self._nest -= 1
        if n.outcome is None or n.outcome[0] != 'ret': raise Unsupported('nested: %r' % (n.outcome,))
        for a in ('objs', 'dom', 'bits', 'rel', 'atoms', 'subst', 'events', 'cnt', 'nfid', 'taint', 'failed', 'x', 'steps'):
            setattr(st, a, getattr(n, a))
        return n.outcome[1]

    def explore(self, st):
        # paths with fewer loop iterations first: what a limit leaves out are only longer repetitions
        lv = {st.loops: [st]}; done = []; chains = []; slice_end = 10**12

        def put(l):
            for n in reversed(l):
                if self.deep and 'chain' in n.x and 'chained' not in n.x:
                    # repetitions start when everything shorter is finished
                    n.x['chained'] = True; chains.append(n)
                else: lv.setdefault(n.loops, []).append(n)
        covered = set()
        while lv or chains:
            if not lv:
                # the repetition that adds most to what was repeated so far
                def worth(i):
                    c = chains[i]
                    return (len(set(c.x['chain'][2]) - covered), -sum(iv_size(d) == 1 for n, d in c.dom.items() if not n.endswith(']')), -i)
                c = chains.pop(max(range(len(chains)), key=worth)); covered |= set(c.x['chain'][2])
                self.nchains += 1
                lv[c.loops] = [c]
                if self.deadline:
                    now = time.time()
                    slice_end = now + max(0, self.deadline - now) / min(len(chains) + 1, 6)
            k = min(lv); work = lv[k]
            if not work:
                del lv[k]; continue
            if chains and self.deadline and time.time() > slice_end:
                # the next repetition's turn
                self.truncated += sum(len(w) for w in lv.values()); lv = {}; continue
            if len(done) > self.max_paths or self.deadline and time.time() > self.deadline:
                self.truncated += sum(len(w) for w in lv.values()) + len(chains); self.trunc_level = k; break
            s = work.pop()
            try:
                r = self.step_until(s)
            except Split as e:
                if self.deep and self.stray(s): continue
                r = []
                for c in e.cases:
                    n = s.copy(); n.splits += 1
                    if is_havoc(e.why): n.taint = n.taint or e.why
                    try: c(n)
                    except Infeasible: continue
                    r.append(n)
                put(r); continue
            except Infeasible:
                if s.outcome is not None: done.append(s)
                continue
            except Unsupported as e:
                fr = s.frames[-1] if s.frames else None
                s.outcome = ('unsupported', str(e), self.where(fr) if fr else '')
                done.append(s); continue
            if r is None:
                if not self.deep or s.outcome[0] != 'loop': done.append(s)
            else: put(r)
        return done

    def stray(self, st):
        """repetition mode: a path that already left the repeated course makes no further choices
        (those are the business of the exhaustive rounds), except in rounds near a constant of the code"""
        n = st.x.get('deep')
        if n is None or n in self.marks: return False
        for fr in reversed(st.frames):
            best = None
            for bb, v in fr.visits.items():
                if v[0] > self.unroll + 1 and (best is None or v[0] > best[0]): best = v
            if best is None: continue
            cur = self.round_blocks(st, best[3])
            old = best[4]
            if cur == old[len(old) - len(cur):]: st.x['dev'] = 0; return False
            st.x['dev'] = st.x.get('dev', 0) + 1
            return st.x['dev'] > 1
        return False

    def where(self, fr):
        f = self.p.fns[fr.fn]
        bb = f['body']['blocks'][fr.bb]
        t = bb['t']
        loc = next((x for x in reversed(t) if isinstance(x, str) and ':' in x), f['loc'])
        return '%s (%s)' % (f['name'], loc)

    def push(self, st, fid, args, ret, cont):
        f = self.p.fns[fid]; b = f['body']
        st.nfid += 1
        fr = Frame(fid, st.nfid, ret, cont)
        args = list(args)
        if b['spread'] is None and len(args) != b['argc']:
            if args and not isinstance(args[-1], int) and args[-1][0] in ('A', 'S') and self.T[args[-1][1 if args[-1][0] == 'A' else 2]]['k'] == 'tuple':
                t = self.materialize(st, args[-1])
                args = args[:-1] + list(t[3])
        elif b['spread'] is None and '{closure' in f['path'] and f['kind'] == 'item' and len(args) == 2 and not isinstance(args[1], int) and args[1][0] == 'A' and self.T[args[1][1]]['k'] == 'tuple' and len(args[1][3]) == 1 and b['argc'] == 2:
            # untuple the single argument when the callee expects it unpacked
            if self.T[b['locals'][2]]['k'] != 'tuple' or self.T[b['locals'][2]]['s'] == self.T[args[1][1]]['fields'] :
                args = [args[0], args[1][3][0]]
            elif b['locals'][2] != args[1][1]:
                args = [args[0], args[1][3][0]]
        if len(args) != b['argc']: raise Unsupported('arity %s %d/%d' % (f['name'], len(args), b['argc']))
        # closure called by value where body expects a reference (call_once on Fn closures)
        if args and '{closure' in f['path'] and not isinstance(args[0], int) and args[0][0] == 'A':
            if self.T[b['locals'][1]]['k'] == 'ref':
                oid = ('clo', st.nfid); st.objs[oid] = args[0]; args[0] = ('R', oid, ())
        for i, a in enumerate(args): st.objs[(fr.fid, i + 1)] = a
        for i, l in enumerate(b['locals']):
            t = self.T[l]
            if i > len(args) and t['k'] == 'closure' and not t['fields']: st.objs[(fr.fid, i)] = ('A', l, 0, ())
        st.frames.append(fr)
        self.visited_fns.add(fid)

    def step_until(self, st):
        while True:
            fr = st.frames[-1]
            body = self.p.fns[fr.fn]['body']
            bb = body['blocks'][fr.bb]
            stmts = bb['s']
            if fr.idx == 0 and not fr.ent:
                fr.ent = True
                self.nblocks.add((fr.fn, fr.bb))
                if self.deep: st.trace = (fr.fn, fr.bb, st.trace)
                if fr.bb in self.p.loop_heads(fr.fn):
                    n0 = st.loops
                    if not self.loop_head(st, fr): return None
                    if st.loops > n0: return [st]
            while fr.idx < len(stmts):
                s = stmts[fr.idx]
                if s[0] == '=':
                    pl = s[1]
                    ty = None
                    rv = s[2]
                    if rv[0] in ('bin', 'un', 'repeat', 'agg'): ty = self.place_ty(body, pl)
                    self.set(st, fr, pl, self.rvalue(st, fr, rv, ty))
                elif s[0] == 'setd':
                    v = self.get(st, fr, s[1])
                    if v[0] == 'A': self.set(st, fr, s[1], ('A', v[1], s[2], v[3]))
                fr.idx += 1
                st.steps += 1
                if st.steps > self.max_steps:
                    st.outcome = ('steps', self.where(fr)); return None
            r = self.terminator(st, fr, body, bb['t'])
            if r is not False: return r

    def place_ty(self, body, pl):
        if len(pl) == 1: return body['locals'][pl[0]]
        last = pl[-1]
        if isinstance(last, list) and last[0] == 'f': return last[2]
        ty = body['locals'][pl[0]]
        for pr in pl[1:]:
            if pr == '*': ty = self.T[ty].get('to', ty)
            elif pr[0] == 'f': ty = pr[2]
            elif pr[0] in ('i', 'ci'): ty = self.T[ty].get('to', ty)
        return ty

    def loop_head(self, st, fr):
        """visit bookkeeping; False stops the path"""
        n, sp = fr.visits.get(fr.bb, (0, -1, None))[:2]
        fr.last = fr.bb
        if sp != st.splits:
            n += 1
            if n > 1: st.loops += 1
        sig = self.signature(st)
        if sp != -1 and sig is not None and fr.visits[fr.bb][2] == sig:
            # nothing a later round depends on has changed: the loop repeats for ever
            st.outcome = ('diverge', self.where(fr), st.taint); return False
        seq = None
        if self.deep:
            old = fr.visits.get(fr.bb)
            seq = self.round_blocks(st, old[3] if old else None)
            if n > self.unroll + 1 and n <= self.deep:
                if sp != st.splits:
                    # beyond the exhaustive rounds: only more of the same
                    if 'free' in st.x: st.x['free'] -= 1
                    elif old[4] != seq and (n in self.marks or n - 1 in self.marks) and 'deep' in st.x: st.x['free'] = 2
                    if st.x.get('free', 1) <= 0 or 'free' not in st.x and old[4] != seq: st.outcome = ('loop', self.where(fr)); return False
                    if 'deep' not in st.x: st.x['chain'] = (fr.fn, fr.bb, seq)
                    st.x['deep'] = n; st.x['dev'] = 0; st.x['head'] = st.trace
                fr.visits[fr.bb] = (n, st.splits, sig, st.trace, seq)
                return True
        fr.visits[fr.bb] = (n, st.splits, sig, st.trace, seq)
        h = self.hooks.get('loop')
        if h:
            r = h(self, st, fr, n)
            if r is False: return False
        if n > self.unroll + 1:
            if self.grace and n == self.unroll + 2 and sp != st.splits:
                # one more round, as far as it can be followed without another operation on unknown input
                st.x['grace'] = st.x.get('grace', ()) + ((fr.fid, fr.fn, fr.bb),)
                return True
            st.outcome = ('loop', self.where(fr)); return False
        return True

    def graceful(self, st):
        """an operation that is not looked into: ends a round that is followed on sufferance"""
        for fid, fn, head in st.x['grace']:
            for fr in st.frames:
                if fr.fid == fid and fr.bb in self.p.loop_blocks(fn, head):
                    st.outcome = ('loop', self.where(fr)); raise Infeasible()

    def counted_round(self, st):
        """a round of a loop over a short range that is known exactly: all of its rounds are followed"""
        for fr in reversed(st.frames):
            v = fr.visits.get(fr.last) if fr.last is not None else None
            if v is None: continue
            if v[0] > 0: fr.visits[fr.last] = (v[0] - 1,) + tuple(v[1:])
            return

    def round_blocks(self, st, stop):
        """the blocks gone through since a point of the trace"""
        seq = []; t = st.trace
        while t is not None and t is not stop: seq.append(t[:2]); t = t[2]
        return tuple(seq)

    def signature(self, st):
        """everything the continuation of the current path depends on, except the text written so far"""
        fids = {f.fid for f in st.frames}
        out = []
        for o, v in st.objs.items():
            if o[0] in ('tmp', 'arena', 'clo') or isinstance(o[0], int) and o[0] not in fids: continue
            out.append((o, self.sigval(st, v, fids, 0)))
        return (tuple(f.bb for f in st.frames), tuple(out))

    def sigval(self, st, v, fids, depth):
        if isinstance(v, (int, str)) or v is None: return v
        if not isinstance(v, tuple): return v
        if len(v) >= 2 and v[0] == 'X' and v[1] == 'out': return 'out'
        if depth < 6 and v and (v[0] == 'R' or v[0] == 'X' and v[1] in ('sl', 'it')):
            o = v[1] if v[0] == 'R' else v[2]
            if isinstance(o, tuple) and o and (o[0] in ('tmp', 'arena', 'clo') or isinstance(o[0], int) and o[0] not in fids):
                return (v[0], self.sigval(st, st.objs.get(o), fids, depth + 1)) + tuple(self.sigval(st, x, fids, depth + 1) for x in v[(2 if v[0] == 'R' else 3):])
        return tuple(self.sigval(st, x, fids, depth) for x in v)

    def goto(self, fr, bb): fr.bb = bb; fr.idx = 0; fr.ent = False

    def terminator(self, st, fr, body, t):
        k = t[0]; st.steps += 1
        if st.steps > self.max_steps:
            st.outcome = ('steps', self.where(fr)); return None
        if k == 'goto': self.goto(fr, t[1]); return False
        if k == 'ret':
            v = st.objs.get((fr.fid, 0), ('A', self.unit(), 0, ()))
            st.frames.pop()
            # free locals
            h = self.hooks.get('ret')
            if h: h(self, st, fr, v)
            if not st.frames:
                st.outcome = ('ret', v); return None
            up = st.frames[-1]
            if fr.ret is not None: self.write(st, fr.ret[0], fr.ret[1], v)
            self.goto(up, fr.cont)
            return False
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t)
        if k == 'drop': self.goto(fr, t[2]); return False
        if k == 'assert':
            c = self.operand(st, fr, t[1]); exp = bool(t[2])
            self.do_assert(st, fr, c, exp, t)
            self.goto(fr, t[5]); return False
        if k == 'call': return self.call(st, fr, body, t)
        if k == 'unreachable':
            raise Infeasible()
        raise Unsupported('terminator ' + k)

    def unit(self): return next(i for i, t in enumerate(self.T) if t['k'] == 'tuple' and not t['fields'])

    def site(self, st):
        """innermost crate-local frame on the stack"""
        for fr in reversed(st.frames):
            f = self.p.fns[fr.fn]
            if f['local']:
                return f, self.where(fr).rsplit('(', 1)[-1].rstrip(')')
        f = self.p.fns[st.frames[0].fn]
        return f, f['loc']

    def demand(self, st, ok, what, name):
        """precondition of an unsafe operation; undefined behaviour ends the path"""
        f, loc = self.site(st)
        key = (f['path'], 'unsafe:' + what, loc)
        ob = self.obligations.setdefault(key, ['proven', '', 0]); ob[2] += 1
        if ok: return
        status = 'refuted' if st.taint is None else 'unknown'
        if ob[0] == 'proven' or status == 'refuted': ob[0] = status; ob[1] = name
        st.outcome = ('panic', key, st.taint)
        raise Infeasible()

    def do_assert(self, st, fr, c, exp, t):
        f, loc = self.site(st)
        key = (f['path'], t[3] if isinstance(t[3], str) else t[3][0], loc)
        ob = self.obligations.setdefault(key, ['proven', '', 0]); ob[2] += 1
        try:
            r = self.truth(st, c)
        except Split as e:
            # undetermined: decide whether the failing side is exact
            exact = not self.mentions_havoc(st, c) and st.taint is None
            if ob[0] == 'proven' or (exact and ob[0] == 'unknown'):
                ob[0] = 'refuted' if exact else 'unknown'; ob[1] = self.show(c)
            if exact: raise
            self.assume(st, c, exp)
            return
        if r != exp:
            if ob[0] != 'refuted': ob[0] = 'refuted' if st.taint is None else 'unknown'; ob[1] = 'always fails: ' + self.show(c)
            st.outcome = ('panic', key, st.taint)
            raise Infeasible()

    def assume(self, st, c, exp):
        """Continue on the non-failing side (best effort refinement)."""
        try:
            self.truth(st, c)
        except Split as e:
            for case in e.cases:
                n = st.copy()
                try:
                    case(n)
                    if self.truth(n, c) == exp:
                        case(st); return
                except (Infeasible, Split): continue

    def mentions_havoc(self, st, v):
        return '?' in self.show(v)

    def show(self, v):
        if isinstance(v, int): return str(v)
        if v[0] == 'S': return v[1]
        if v[0] == 'L': return ' + '.join([str(v[1])] + ['%d*%s' % (k, n) for n, k in v[2]])
        if v[0] == 'O': return '%s(%s)' % (v[1], ', '.join(self.show(x) if not isinstance(x, str) else x for x in v[2]))
        return repr(v)

    def switch(self, st, fr, v, t):
        pairs, other = t[2], t[3]
        if isinstance(v, int):
            for val, bb in pairs:
                if val == v: self.goto(fr, bb); return False
            if other is None: raise Infeasible()
            self.goto(fr, other); return False
        # booleans / conditions
        if v[0] == 'O' and (v[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'ovf') or self.T[v[3]]['k'] == 'bool' if v[3] is not None else False):
            b = int(self.truth(st, v))
            return self.switch(st, fr, b, t)
        if v[0] == 'V':   # discriminant of a node view
            h = self.hooks['vswitch']
            return self.switch(st, fr, h(self, st, v, pairs, other), t)
        if v[0] == 'S':
            d = self.dom(st, v[1], v[2])
            groups = {}
            for val, bb in pairs:
                if iv_inter(d, ((val, val),)): groups.setdefault(bb, []).append((val, val))
            rest = iv_minus(d, iv_norm([(a, a) for a, _ in pairs]))
            if rest and other is not None and not self.is_unreach(fr, other): groups.setdefault(other, []).extend(rest)
            if len(groups) == 1:
                bb, = groups; self.goto(fr, bb); return False
            if not groups: raise Infeasible()
            self.split_dom(v[1], v[2], [iv_norm(g) for g in groups.values()])
        l = self.lin(st, v)
        if l:
            for val, bb in pairs:
                if self.compare(st, 'Eq', v, val): self.goto(fr, bb); return False
            if other is None: raise Infeasible()
            self.goto(fr, other); return False
        raise Unsupported('switch on %r' % (v,))

    def is_unreach(self, fr, bb):
        b = self.p.fns[fr.fn]['body']['blocks'][bb]
        return b is not None and b['t'][0] == 'unreachable' and not b['s']

    # ------------------------------------------------------------ calls
    def call(self, st, fr, body, t):
        callee, args, dest, target, loc = t[1], t[2], t[3], t[4], t[5]
        destty = t[6] if len(t) > 6 else self.place_ty(body, dest)
        if callee[0] == 'ind':
            fv = self.operand(st, fr, callee[1])
            if fv[0] == 'F': fid = fv[1]
            else: return self.havoc_call(st, fr, None, [self.operand(st, fr, a) for a in args], dest, target, destty, 'indirect')
        elif callee[0] == 'unres':
            return self.havoc_call(st, fr, None, [self.operand(st, fr, a) for a in args], dest, target, destty, callee[1])
        else: fid = callee[1]
        f = self.p.fns[fid]
        vals = [self.operand(st, fr, a) for a in args]
        return self.invoke(st, fr, f, vals, dest, target, destty, loc)

    def invoke(self, st, fr, f, vals, dest, target, destty, loc):
        fid = f['id']
        h = self.cuts.get(fid)
        if h is None: h = self.models(self, f) if self.models else None
        if h is not None:
            r = h(self, st, f, vals, destty)
            if r is not NotImplemented:
                return self.finish(st, fr, r, dest, target)
        if target is None and (f['body'] is None or not f['local']):
            return self.diverge(st, fr, f, vals, loc)
        if f['body'] is None and f.get('ret') is not None:
            # a constructor used as a function
            t = self.T[f['ret']]
            if t['k'] == 'adt' and f['path'] in (t['path'], '%s::%s' % (t['path'], f['item'])):
                for i, v in enumerate(t['variants']):
                    if v['name'] == f['item'] and len(v['fields']) == len(vals) and (t['adt'] == 'enum') == (f['path'] != t['path']):
                        return self.finish(st, fr, ('A', f['ret'], i, tuple(vals)), dest, target)
        if f['body'] is None or (f['id'] in (x.fn for x in st.frames) and sum(1 for x in st.frames if x.fn == f['id']) > 3):
            return self.havoc_call(st, fr, f, vals, dest, target, destty, f['name'])
        if len(st.frames) > 60: raise Unsupported('depth')
        dl = self.loc(st, fr, dest)
        self.push(st, fid, vals, (dl[1], dl[2]), target)
        return False

    def finish(self, st, fr, r, dest, target):
        """r: value, or list of (state, value)"""
        if isinstance(r, list):
            out = []
            for s2, v in r:
                if v is None and s2.outcome: continue
                f2 = s2.frames[-1]
                self.set(s2, f2, dest, v)
                if target is None: continue
                self.goto(f2, target)
                out.append(s2)
            return out
        if isinstance(r, tuple) and r and r[0] == 'INVOKE':
            return self.invoke(st, fr, r[1], r[2], dest, target, r[3], '')
        self.set(st, fr, dest, r)
        if target is None: raise Infeasible()
        self.goto(fr, target)
        return False

    def diverge(self, st, fr, f, vals, loc):
        lf, lloc = self.site(st)
        key = (lf['path'], 'panic:' + f['path'].split('::')[-1], lloc)
        ob = self.obligations.setdefault(key, ['proven', '', 0])
        status = 'refuted' if st.taint is None else 'unknown'
        if ob[0] == 'proven' or status == 'refuted': ob[0] = status; ob[1] = f['name']
        ob[2] += 1
        st.outcome = ('panic', key, st.taint)
        return None

    def havoc_call(self, st, fr, f, vals, dest, target, destty, name):
        # an operation without a summary: an unknown but deterministic function of its arguments
        self.havocked[name] = self.havocked.get(name, 0) + 1
        st.x['havoc'] = st.x.get('havoc', ()) + (name,)
        if target is None: return self.diverge(st, fr, f, vals, '') if f else None
        h = self.hooks.get('havoc')
        nm = h(self, st, f, vals, name) if h else None
        if nm is None: nm = st.fresh('?' + name.split('::')[-1])
        self.set(st, fr, dest, self.sym(st, nm, destty))
        self.goto(fr, target)
        return False

    # ------------------------------------------------------------ helpers for models
    def some(self, ty, v): return ('A', ty, 1, (v,))

    def none(self, ty): return ('A', ty, 0, ())

    def ok(self, ty, v): return ('A', ty, self.vidx(ty, 'Ok'), (v,))

    def err(self, ty, v): return ('A', ty, self.vidx(ty, 'Err'), (v,))

    def vidx(self, ty, name):
        for i, v in enumerate(self.T[ty]['variants']):
            if v['name'] == name: return i
        raise KeyError(name)

    def payload_ty(self, ty, name):
        v = self.T[ty]['variants'][self.vidx(ty, name)]
        return v['fields'][0][1] if v['fields'] else None
