"""Comparison of the path summaries of the code under analysis with those of the reference model."""
import os, pickle, random, re, signal, time
from engine import Engine, State, Split, Infeasible, Unsupported, S, iv_size
from models import Models, short

STATEFUL = 'demangler::Demangler'


class Cutter:
    """Summaries of the functions that delimit a unit (both sides)."""

    def __init__(self, prog):
        self.p = prog; self.T = prog.types
        self.callees = {}
        self._graph()
        self.mods = {'code': {}, 'ref': {}}
        self._effects()

    # call graph over functions with bodies (address-taken items and closures count as called)
    def _graph(self):
        for f in self.p.fns:
            s = set()
            if f['body']:
                for l in f['body']['locals']:
                    t = self.T[l]
                    if t['k'] in ('closure', 'fndef') and isinstance(t.get('fn'), int): s.add(self.p.fn_of_type(l, self.p.side[f['id']]))
                if '{closure' in f['path']: s.discard(f['id'])     # its own environment
                for bb in f['body']['blocks']:
                    if bb is None: continue
                    t = bb['t']
                    if t[0] == 'call' and t[1][0] == 'fn': s.add(t[1][1])
                    for x in self.consts(bb): s.add(x)
            self.callees[f['id']] = s

    def consts(self, bb):
        out = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') in ('fn', 'promoted') and isinstance(x.get('id'), int): out.append(x['id'])
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        for s in bb['s']: walk(s)
        walk(bb['t'])
        return out

    def reach(self, fid):
        seen = {fid}; work = [fid]
        while work:
            for c in self.callees[work.pop()]:
                if c not in seen: seen.add(c); work.append(c)
        return seen

    def _effects(self):
        """direct reads / writes of the fields of the parser state, per function"""
        self.dreads = {}; self.dmods = {}; self.dmut = {}
        for f in self.p.fns:
            r, w = set(), set(); mut = False
            if f['body']:
                b = f['body']

                def fld(pl):
                    ty = b['locals'][pl[0]]
                    out = None
                    for e in pl[1:]:
                        t = self.T[ty]
                        if e == '*': ty = t.get('to', ty)
                        elif isinstance(e, list) and e[0] == 'f':
                            if t['k'] == 'adt' and t['path'] == STATEFUL and out is None: out = t['variants'][0]['fields'][e[1]][0]
                            ty = e[2]
                        elif isinstance(e, list) and e[0] in ('i', 'ci'): ty = t.get('to', ty)
                    return out

                def ops(x):
                    if isinstance(x, list):
                        if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                            q = fld(x[1])
                            if q: r.add(q)
                            return
                        for y in x: ops(y)
                for bb in b['blocks']:
                    if bb is None: continue
                    for s in bb['s']:
                        if s[0] != '=': continue
                        q = fld(s[1])
                        if q: w.add(q)
                        rv = s[2]
                        if rv[0] in ('ref', 'rawptr'):
                            q = fld(rv[2])
                            if q:
                                r.add(q)
                                if rv[1] not in (False, 'shared', 'imm', 0, None): w.add(q)
                        elif rv[0] == 'discr':
                            q = fld(rv[1])
                            if q: r.add(q)
                        else: ops(rv)
                    t = bb['t']
                    if t[0] == 'call':
                        q = fld(t[3])
                        if q: w.add(q)
                    ops(t)
                if f['path'].endswith('::resolve_mut'): mut = True
            self.dreads[f['id']] = r; self.dmods[f['id']] = w; self.dmut[f['id']] = mut

    def effects(self, f):
        """(reads, modifications, may modify nodes) of a function, from both sides"""
        key = f['nname']
        c = getattr(self, '_eff', None)
        if c is None: c = self._eff = {}
        if key not in c:
            r, w = set(), set(); mut = False
            for side in ('code', 'ref'):
                for g in self.p.by_name[side].get(key, []):
                    for x in self.reach(g['id']):
                        r |= self.dreads[x]; w |= self.dmods[x]; mut |= self.dmut[x]
            for s in (r, w):
                s -= {'depth', 'cache', 'allocator'}
            c[key] = (sorted(r), sorted(w), mut)
        return c[key]


class Analysis:
    def __init__(self, prog, max_paths=20000, max_steps=60000, unroll=2):
        self.p = prog; self.T = prog.types
        self.cutter = Cutter(prog)
        self.deadline = None; self.max_paths = max_paths; self.max_steps = max_steps; self.unroll = unroll
        self._same_fn = {}; self._ident = {}
        self._classify()

    # ------------------------------------------------------------ units
    def isref(self, ty, pred):
        t = self.T[ty]
        return t['k'] == 'ref' and pred(self.T[t['to']])

    def is_dem(self, ty): return self.isref(ty, lambda t: t['k'] == 'adt' and t['path'] == STATEFUL)

    def is_writer(self, ty):
        return self.isref(ty, lambda t: t['k'] == 'dyn' or t['k'] == 'adt' and 'BufWriter' in t['path'] or 'Writer' in t['s'] and t['k'] in ('dynamic', 'dyn', 'trait'))

    def is_ambient(self, ty):
        return self.isref(ty, lambda t: t['k'] == 'adt' and t['path'] in ('cache::NodeCache', 'bumpalo::Bump'))

    def params(self, f): return f['body']['locals'][1:1 + f['body']['argc']]

    def sig(self, f):
        # by name: a type whose definition changed is still the same type
        return tuple(self.p.tk(t) for t in f['body']['locals'][:1 + f['body']['argc']])

    def _classify(self):
        p = self.p
        self.cutnames = set(); self.pairs = {}
        for n, l in p.by_name['code'].items():
            r = p.by_name['ref'].get(n)
            if not r or len(r) != 1 or len(l) != 1: continue
            f, g = l[0], r[0]
            if not f['local'] or not f['body'] or not g['body']: continue
            if '{closure' in n or self.sig(f) != self.sig(g): continue
            self.pairs[n] = (f, g)
            ps = self.params(f)
            if f['path'].endswith('::with_nesting') or f['kind'] != 'item': continue
            if any(self.is_dem(t) for t in ps) or any(self.is_writer(t) for t in ps):
                if f['path'].startswith('<demangler::writing'): continue
                self.cutnames.add(n)

        self._more_units()

    LOW = re.compile(r'cache::|mangled_string::|extensions::|demangler::writing::|^alloc::|nodes::intermediate::')
    DEM = re.compile(r'^demangler::Demangler')
    JUNK = re.compile(r'InternalBitFlags|fmt::|Clone>::clone|bitflags|assert_fields_are_eq|PartialEq|PartialOrd|error::Error|<impl |Hash')

    def _more_units(self):
        """functions whose meaning is built into the comparison of the others (storage, handles, output
        buffer), and those no other unit contains"""
        p = self.p; inl = set()
        for side in ('code', 'ref'):
            for u in self.cutnames:
                work = [f['id'] for f in p.by_name[side][u]]; seen = set(work)
                while work:
                    for c in self.cutter.callees[work.pop()]:
                        n = p.fns[c]['nname']
                        if c in seen or n in self.cutnames: continue
                        seen.add(c); inl.add(n); work.append(c)
        self.lownames = set(); self.extranames = set()
        for n, (f, g) in self.pairs.items():
            if n in self.cutnames or f['kind'] != 'item' or '{closure' in n or self.JUNK.search(n): continue
            if self.LOW.search(f['path']) and not self.DEM.search(f['path']): self.lownames.add(n)
            elif n not in inl: self.extranames.add(n)

    # ------------------------------------------------------------ unchanged code
    LOC = re.compile(r'\.rs:\d+')

    def same_body(self, a, b, fns):
        """structural equality of two bodies; functions referred to are added to fns"""
        if isinstance(a, dict):
            if not isinstance(b, dict) or a.keys() != b.keys(): return False
            if a.get('k') in ('fn', 'promoted') and isinstance(a.get('id'), int):
                fns.append((a['id'], b['id']))
                return all(self.same_body(a[k], b[k], fns) for k in a if k != 'id')
            return all(self.same_body(a[k], b[k], fns) for k in a)
        if isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b): return False
            if len(a) >= 2 and a[0] == 'fn' and isinstance(a[1], int) and b[0] == 'fn' and isinstance(b[1], int):
                fns.append((a[1], b[1]))
                return all(self.same_body(x, y, fns) for x, y in zip(a[2:], b[2:]))
            return all(self.same_body(x, y, fns) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str) and a != b: return bool(self.LOC.search(a) and self.LOC.search(b))
        return type(a) is type(b) and a == b

    def same_fn(self, i, j):
        c = self._same_fn.get((i, j))
        if c is None:
            f, g = self.p.fns[i], self.p.fns[j]
            fns = []
            ok = f['nname'] == g['nname'] and f['kind'] == g['kind'] and (f['body'] is None) == (g['body'] is None)
            if ok and f['body']:
                ok = self.same_body(f['body'], g['body'], fns)
                for l, r in zip(f['body']['locals'], g['body']['locals']) if ok else ():
                    x, y = self.p.fn_of_type(l, 'code'), self.p.fn_of_type(r, 'ref')
                    if isinstance(x, int) and isinstance(y, int): fns.append((x, y))
            c = self._same_fn[(i, j)] = (ok, fns)
        return c

    def loops(self, unit):
        """the unit or something it contains repeats"""
        work = [self.pairs[unit][0]['id']]; seen = set()
        while work:
            i = work.pop()
            if i in seen: continue
            seen.add(i); h = self.p.fns[i]
            if not h['body'] or not h['local'] or len(seen) > 1 and h['nname'] in self.cutnames: continue
            if self.p.loop_heads(i): return True
            work += self.cutter.callees[i]
        return False

    def in_loop(self, unit):
        """the unit is called, not through another unit, in a round of some loop"""
        if not hasattr(self, '_inloop'):
            self._inloop = set(); names = self.cutnames
            for f in self.p.fns:
                if not f['body'] or not f['local'] or self.p.side[f['id']] != 'code': continue
                work = []
                for h in self.p.loop_heads(f['id']):
                    for b in self.p.loop_blocks(f['id'], h):
                        t = f['body']['blocks'][b]
                        if t and t['t'][0] == 'call' and t['t'][1][0] == 'fn': work.append(t['t'][1][1])
                seen = set()
                while work:
                    i = work.pop()
                    if i in seen: continue
                    seen.add(i); n = self.p.fns[i]['nname']
                    if n in names: self._inloop.add(n)
                    else: work += self.cutter.callees[i]
        return unit in self._inloop

    def identical(self, unit):
        """the unit and everything it contains is the same code on both sides"""
        c = self._ident.get(unit)
        if c is None:
            f, g = self.pairs[unit]
            work = [(f['id'], g['id'])]; seen = set(); c = True
            while work:
                x = work.pop()
                if x in seen or x[0] == x[1]: continue
                seen.add(x)
                ok, fns = self.same_fn(*x)
                if not ok: c = False; break
                for i, j in fns:
                    if self.p.fns[i]['nname'] in self.cutnames and self.p.fns[i]['nname'] == self.p.fns[j]['nname']: continue
                    work.append((i, j))
            self._ident[unit] = c
        return c

    def cuts_for(self, unit, uncut, m):
        cuts = {}
        for n in self.cutnames:
            if n == unit or n in uncut: continue
            for side in ('code', 'ref'):
                for f in self.p.by_name[side][n]:
                    cuts[f['id']] = lambda eng, st, f, v, d: self.cut_call(m, eng, st, f, v, d)
        # the unit itself, when it recurs
        for side in ('code', 'ref'):
            for f in self.p.by_name[side].get(unit, []):
                if unit in self.cutnames: cuts[f['id']] = lambda eng, st, f, v, d: self.cut_call(m, eng, st, f, v, d)
        return cuts

    def cut_call(self, m, eng, st, f, vals, destty):
        T = self.T
        reads, mods, mut = self.cutter.effects(f)
        args = []; posts = []; writer = None; handles = []
        if len(vals) != len(self.params(f)): raise Unsupported('cut arity')
        for i, (v, ty) in enumerate(zip(vals, self.params(f))):
            if self.is_dem(ty):
                r = eng.deref(st, v)
                fs = T[T[ty]['to']]['variants'][0]['fields']; extra = T[T[ty]['to']]['variants'][0].get('extra', ())
                for k, (n, fty) in enumerate(fs):
                    if n in reads and n not in extra: args.append(eng.read(st, r[1], r[2] + (('f', k, fty),)))
                if T[ty]['mut']: posts.append(('dem', r, [(k, n, fty) for k, (n, fty) in enumerate(fs) if n in mods]))
            elif self.is_ambient(ty): continue
            elif self.is_writer(ty): writer = v
            else:
                if T[ty]['k'] == 'ref' and T[ty]['mut'] and not m.is_view(T[ty]['to']):
                    posts.append(('arg', v, i, T[ty]['to']))
                args.append(v)
                if mut: self.find_handles(st, m, v, handles, 0)
        name = f['nname']
        if writer is not None:
            nm = self.item_name(f)
            if nm != f['nname'] and args: args[0] = self.receiver(m, eng, st, args[0])
            item = ('call', nm, tuple(m.snap(st, a) for a in args))
            res = []
            if eng.fail and m.forking and st.failed is None and T[destty].get('adt') == 'enum' and len(T[destty]['variants']) == 2:
                n = st.copy(); n.failed = eng.site(st)[1]
                m.emit(n, writer, [('call', 'part of ' + nm, ())])
                res.append((n, eng.err(destty, eng.sym(n, 'print_error', eng.payload_ty(destty, 'Err')))))
            o, pth, out = m.out_of(st, writer)
            if T[destty].get('adt') == 'enum' and any(v['name'] == 'Ok' for v in T[destty]['variants']):
                pt = eng.payload_ty(destty, 'Ok')
                if T[pt]['k'] == 'tuple' and not T[pt]['fields']: val = eng.ok(destty, ('A', pt, 0, ()))
                else: val = eng.ok(destty, eng.sym(st, m.named(st, name, args + [out]) + '.Ok', pt))
            elif T[destty]['k'] == 'tuple' and not T[destty]['fields']: val = ('A', destty, 0, ())
            else: val = eng.sym(st, m.named(st, name, args + [out]), destty)
            m.emit(st, writer, [item])
            self.post(m, eng, st, f, posts, name)
            return [(st, val)] + res if res else val
        nm = m.named(st, name, args)
        self.post(m, eng, st, f, posts, nm)
        for k, hty in handles:
            if isinstance(k, tuple):
                o = ('node', k[1])
                old = st.objs.get(o)
                if old is not None and not isinstance(old, int):
                    nty = old[1] if old[0] == 'A' else old[2]
                    st.objs[o] = eng.sym(st, '%s.node' % nm, nty)
            else: st.x[('ver', k)] = '@' + nm
        return eng.sym(st, nm, destty)

    def find_handles(self, st, m, v, out, depth):
        if isinstance(v, int) or depth > 3: return
        if v[0] == 'S' and v[2] >= 0:
            t = self.T[v[2]]
            if t['k'] == 'adt' and t['path'] == 'cache::NodeHandle': out.append((m.hkey(st, v), v[2]))
        elif v[0] == 'A':
            t = self.T[v[1]]
            if t['k'] == 'adt' and t['path'] == 'cache::NodeHandle': out.append((m.hkey(st, v), v[1])); return
            for x in v[3]: self.find_handles(st, m, x, out, depth + 1)

    def receiver(self, m, eng, st, v):
        """the node a printing method is called on, whichever view of it (enum or concrete node) is at hand"""
        w = v
        for _ in range(8):
            if isinstance(w, int): return v
            if w[0] == 'V': return ('V', w[1], 0)
            if w[0] == 'A' and m.is_view(w[1]) and len(w[3]) == 1: w = w[3][0]; continue
            if w[0] != 'R': return v
            o = w[1]
            if o[0] == 'node' and not w[2]: return ('X', 'h', ('i', o[1]))
            if o[0] == '*' and isinstance(o[1], str) and o[1].startswith('N(') and o[1].endswith(')') and not w[2]: return ('V', o[1][2:-1], 0)
            try: w = eng.read(st, w[1], w[2])
            except Unsupported: return v
        return v

    def item_name(self, f):
        # the receiver of a printing method is compared by identity, not by how it was dispatched
        return f['path'].split('::')[-1] if f['path'].split('::')[-1].startswith('output') and 'as nodes::Writeable' in f['path'] else f['nname']

    def post(self, m, eng, st, f, posts, nm):
        T = self.T
        for p in posts:
            if p[0] == 'dem':
                r = p[1]
                for k, n, fty in p[2]:
                    loc = r[2] + (('f', k, fty),)
                    if T[fty]['k'] == 'adt' and T[fty]['path'] == 'mangled_string::MangledString':
                        old = m.ms_str(st, eng.read(st, r[1], loc))
                        new = ('X', 'str', nm + '.str', 0, None)
                        # the parser only ever moves forward
                        for ln in (m.nbytes, m.count) if old is not None else ():
                            l = eng.lin(st, ln(st, old)); k = eng.lin(st, ln(st, new))
                            if l is None or k is None or not k[1]: continue
                            dd = dict(l[1])
                            for n_, q in k[1].items(): dd[n_] = dd.get(n_, 0) - q
                            dd = {x: y for x, y in dd.items() if y}
                            if dd: eng.add_rel(st, dd, k[0] - l[0], 10**30)
                        v = m.ms_make(st, fty, new)
                    else: v = eng.sym(st, nm + '.' + n, fty)
                    eng.write(st, r[1], loc, v)
            else:
                _, v, i, ty = p
                r = eng.deref(st, v)
                if T[ty]['k'] in ('slice', 'dyn', 'str'): raise Unsupported('cut with &mut ' + T[ty]['s'])
                eng.write(st, r[1], r[2], eng.sym(st, '%s.arg%d' % (nm, i), ty))

    # ------------------------------------------------------------ running one unit
    def start(self, eng, f):
        args = []
        st = State()
        for i, ty in enumerate(self.params(f)):
            t = self.T[ty]
            if self.is_dem(ty):
                o = ('*', 'self', t['to']); st.x['selfty'] = t['to']
                args.append(('R', o, ()))
            else: args.append(eng.sym(st, 'p%d' % (i + 1), ty))
        return st, args

    def engine(self, unit, uncut, low=False):
        eng = Engine(self.p, {}, None, self.max_paths, self.max_steps, self.unroll)
        m = Models(self.p, eng, low)
        m.lsp_unit = low
        eng.deadline = self.deadline
        eng.cuts = self.cuts_for(unit, uncut, m) if not low else {}
        return eng, m

    def run_unit(self, name, uncut=frozenset(), low=False, limit=None, deep=0, grace=False):
        f, g = self.pairs[name]
        eng, m = self.engine(name, uncut, low)
        r = Result(name, f)
        t0 = time.time()
        st, args = self.start(eng, f)
        m.mode = eng.side = 'code'; m.forking = not low
        if deep:
            eng.deep = deep; eng.max_steps *= 20
            eng.marks = self.marks(f, deep) | self.marks(g, deep)
        eng.grace = grace
        # half of the time for the paths, the rest for comparing them
        if self.deadline and not deep: eng.deadline = t0 + 0.55 * (self.deadline - t0)
        leaves = eng.run(f['id'], args, st)
        r.leaves = len(leaves); r.t_code = time.time() - t0
        r.fns = set(eng.visited_fns)
        r.truncated = eng.truncated
        r.obligations = eng.obligations
        r.havocked = dict(eng.havocked)
        hav_code = set(eng.havocked)
        m.mode = eng.side = 'ref'; m.forking = False
        eng.fail = False
        eng.obligations = {}; eng.unroll = max(self.unroll, deep) + 3; eng.deep = 0; eng.grace = False
        unsup = {}
        if deep:
            leaves = r.sampled = self.sample(eng, leaves)
            r.rounds = max((l.x['deep'] for l in leaves), default=0); r.chains = eng.nchains
            if self.deadline: eng.deadline = time.time() + 1.5 * (self.deadline - t0)
        elif self.deadline:
            eng.deadline = max(self.deadline, time.time() + 0.45 * (self.deadline - t0))
            if eng.truncated: random.Random(7).shuffle(leaves)
        if deep and len(leaves) > 40: leaves = self.differing(eng, m, g, leaves, r, unsup)
        for leaf in leaves:
            k = leaf.outcome[0]
            if eng.deadline and time.time() > eng.deadline: r.truncated += 1; continue
            if k in ('loop', 'steps'): r.bounded += 1; continue
            if k == 'unsupported':
                unsup[leaf.outcome[1:]] = unsup.get(leaf.outcome[1:], 0) + 1; continue
            if k == 'diverge': r.diverging.append(leaf)
            if leaf.failed is not None:
                r.failing += 1
                if k == 'ret' and not self.is_err(leaf.outcome[1]):
                    r.swallowed.append((leaf.failed, leaf))
                continue
            self.compare_leaf(eng, m, g, leaf, r, unsup)
            if limit and len(r.mismatches) >= limit: break
        r.unsup = unsup
        r.hav_new = {n for n in hav_code if n not in eng.havocked or True} and {n for n in hav_code}
        r.havoc_ref = set(eng.havocked) - hav_code
        r.t = time.time() - t0
        r.eng = eng; r.m = m
        return r

    def differing(self, eng, m, g, leaves, r, unsup):
        """compares the ends of repetitions on several processors; the few that differ are left to the caller"""
        k = 6; kids = []
        for j in range(k):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd); signal.alarm(0)
                    q = Result(r.name, r.f); us = {}; bad = []; cut = 0
                    for i in range(j, len(leaves), k):
                        leaf = leaves[i]
                        if time.time() > eng.deadline: cut += 1; continue
                        o = leaf.outcome[0]
                        if o in ('loop', 'steps'): continue
                        if o == 'unsupported': us[leaf.outcome[1:]] = us.get(leaf.outcome[1:], 0) + 1; continue
                        n = len(q.mismatches)
                        self.compare_leaf(eng, m, g, leaf, q, us)
                        if len(q.mismatches) > n or o == 'diverge':
                            bad.append(i)
                            if len(bad) > 4: break
                    with os.fdopen(wr, 'wb') as f: f.write(pickle.dumps((bad, q.pairs, q.bounded, cut, us)))
                finally: os._exit(0)
            os.close(wr); kids.append((pid, rd))
        bad = []
        try:
            for pid, rd in kids:
                with os.fdopen(rd, 'rb') as f: d = f.read()
                try: b, pairs, bounded, cut, us = pickle.loads(d)
                except Exception: r.truncated += 1; continue
                bad += b; r.pairs += pairs; r.bounded += bounded; r.truncated += cut
                for x, n in us.items(): unsup[x] = unsup.get(x, 0) + n
        finally:
            for pid, rd in kids:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
                try: os.waitpid(pid, 0)
                except OSError: pass
        if bad: eng.deadline = max(eng.deadline, time.time() + 30)
        return [leaves[i] for i in bad[:8]]

    def marks(self, f, deep):
        """rounds at which a repetition may change its course: near the constants the unit mentions"""
        out = set(); seen = set(); work = [f['id']]
        consts = set()

        def walk(x):
            if not isinstance(x, list): return
            if len(x) == 3 and x[0] == 'k' and isinstance(x[1], int) and isinstance(x[2], dict):
                if self.T[x[1]]['k'] == 'int' and isinstance(x[2].get('v'), int): consts.add(x[2]['v'])
                return
            for v in x: walk(v)
        while work:
            i = work.pop()
            if i in seen: continue
            seen.add(i); h = self.p.fns[i]
            if not h['body'] or not h['local']: continue
            if i != f['id'] and h['nname'] in self.cutnames: continue
            for bb in h['body']['blocks']:
                if bb is not None: walk(bb['s']); walk(bb['t'])
            for l in h['body']['locals']:
                n = self.T[l].get('len')
                if isinstance(n, int): consts.add(n)
                # capacities
                if self.T[l]['k'] == 'adt': consts.update(int(x) for x in re.findall(r', (\d+)>', self.T[l]['s']) if len(x) < 5)
            work += self.cutter.callees[i]
        for c in consts:
            for q in (c, c // 2) if c >= 32 else (c,):
                if 3 <= q <= deep: out |= {q - 1, q, q + 1, q + 2}
        return frozenset(out)

    def sample(self, eng, leaves):
        """of the ends of repetitions: those at the marks, where the kind of end changes, and some of the rest"""
        L = []
        for l in leaves:
            if 'deep' not in l.x or l.failed is not None: continue
            L.append((l, l.x['deep'], (l.x['chain'], hash(eng.round_blocks(l, l.x['head'])), l.outcome[0], 'free' in l.x)))
        have = {(n, k) for _, n, k in L}
        groups = {}
        for l, n, k in L:
            if n in eng.marks or n < 6 or n % 8 == 0 or l.outcome[0] == 'panic' or (n - 1, k) not in have or (n + 1, k) not in have:
                groups.setdefault((n, k), []).append(l)
        # of each kind first those decided last
        for g in groups.values(): g.sort(key=lambda l: -l.splits)
        out = []; i = 0
        order = sorted(groups, key=lambda q: (q[0] not in eng.marks, (q[0] * 7) % 11))
        while groups:
            for q in order:
                g = groups.get(q)
                if g is None: continue
                if i < len(g): out.append(g[i])
                else: del groups[q]
            i += 1
        return out

    def is_err(self, v):
        if isinstance(v, int): return False
        if v[0] == 'A' and self.T[v[1]].get('adt') == 'enum': return self.T[v[1]]['variants'][v[2]]['name'] == 'Err'
        return False

    def carry(self, leaf):
        st = State()
        st.dom = dict(leaf.dom); st.bits = dict(leaf.bits); st.rel = dict(leaf.rel); st.atoms = dict(leaf.atoms); st.subst = dict(leaf.subst)
        for k, v in leaf.x.items():
            if isinstance(k, tuple) and k[0] in ('nk', 'ver', 'oblig') or k in ('nnodes', 'havoc'): continue
            st.x[k] = v
        return st

    def compare_leaf(self, eng, m, g, leaf, r, unsup):
        st = self.carry(leaf)
        _, args = self.start(eng, g)
        # a path the reference does not follow in step meets very many of its paths: a part of them will do
        full = eng.max_paths; eng.max_paths = min(full, 200 if r.mismatches else 3000)
        try: subs = eng.run(g['id'], args, st)
        except Infeasible: return
        finally: eng.max_paths = full
        for s in subs:
            r.pairs += 1
            k = s.outcome[0]
            if k in ('loop', 'steps'): r.bounded += 1; continue
            if k == 'unsupported':
                u = ('ref',) + s.outcome[1:]
                unsup[u] = unsup.get(u, 0) + 1; continue
            work = [s]; rounds = 0
            while work:
                s = work.pop(); rounds += 1
                cs = self.joined(leaf, s)
                try:
                    m.final = True
                    try:
                        a = self.outcome(eng, m, cs); b = self.outcome(eng, m, s)
                        if a != b and self.equalities(eng, cs, s):
                            a = self.outcome(eng, m, cs); b = self.outcome(eng, m, s)
                    finally: m.final = False
                except Split as e2:
                    # a value that is a condition: compare the cases
                    if rounds > 40:
                        unsup[('split in comparison', str(e2.why))] = 1; break
                    for f in e2.cases:
                        s2 = s.copy()
                        try: f(s2)
                        except Infeasible: continue
                        work.append(s2)
                    continue
                if a == b and a['end'] == 'return' and a.get('ret') != 'Err':
                    # nodes made without being counted
                    i, j = leaf.x.get('nnodes', 0), s.x.get('nnodes', 0)
                    if i < j: a = dict(a, nodes=i); b = dict(b, nodes=j)
                if a != b: self.mismatch(leaf, cs, s, a, b, r, unsup)

    def equalities(self, eng, cs, s):
        """replace quantities by others they are known to be equal to"""
        new = dict(s.subst); n0 = len(new); s.subst = cs.subst = new
        eqs = [(dict(k[1]), k[2]) for k, v in s.atoms.items() if k[0] == 'eq' and v is True]
        eqs += [(dict(k), -v[0]) for k, v in s.rel.items() if v[0] == v[1]]
        for d, c in eqs:
            if any(n[:2] in ('w:', 'O:') for n in d): continue
            c, d = eng.lin_norm(s, c, dict(d))
            d = {n: k for n, k in d.items() if k}
            v = max((n for n, k in d.items() if abs(k) == 1), default=None)
            if v is None: continue
            k = d.pop(v)
            new[v] = (-k * c, {n: -k * q for n, q in d.items()})
        return len(new) > n0

    def joined(self, leaf, s):
        """the code's path with what the reference's path establishes"""
        cs = leaf.copy()
        cs.dom = s.dom; cs.bits = s.bits; cs.rel = s.rel; cs.atoms = s.atoms; cs.subst = s.subst
        x = dict(s.x)
        for kk in list(x):
            if isinstance(kk, tuple) and kk[0] in ('nk', 'ver'): del x[kk]
        for kk, v in leaf.x.items():
            if isinstance(kk, tuple) and kk[0] in ('nk', 'ver') or kk == 'nnodes': x[kk] = v
        x['codecalls'] = leaf.x.get('calls', ())
        cs.x = x
        return cs

    def mismatch(self, leaf, cs, s, a, b, r, unsup):
        # a difference that rests on an operation only one side uses, whose meaning is unknown, decides nothing
        h1 = set(leaf.x.get('havoc', ())); h2 = set(s.x.get('havoc', ()))
        if h1 - h2 or h2 - h1:
            ks = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
            if leaf.taint or s.taint or any('?' in repr(a.get(k)) or '?' in repr(b.get(k)) for k in ks) or any(unknown(n) for n in cs.dom) or any('?' in repr(n) for n in cs.atoms):
                u = ('unmodelled', ', '.join(sorted(h1 ^ h2)))
                unsup[u] = unsup.get(u, 0) + 1; return
        r.mismatches.append(Mismatch(r.name, a, b, cs, s))

    def outcome(self, eng, m, st):
        """observable outcome of a path, canonical under its facts"""
        T = self.T
        o = st.outcome
        if o[0] == 'panic': return {'end': 'ub' if o[1][1].startswith('unsafe:') else 'panic'}
        if o[0] == 'diverge': return {'end': 'diverge'}
        out = {'end': 'return'}
        err = False
        v = o[1]
        if self.is_err(v): err = True
        elif not isinstance(v, int) and v[0] == 'S' and v[2] >= 0 and T[v[2]].get('adt') == 'enum' and any(x['name'] == 'Err' for x in T[v[2]]['variants']):
            d = eng.discr(st, v, v[2])
            if isinstance(d, int): err = next(x['name'] for x in T[v[2]]['variants'] if x['discr'] == d) == 'Err'
        if err:
            out['ret'] = 'Err'
        else: out['ret'] = m.freeze(st, m.snap(st, v))
        for obj in list(st.objs):
            if obj[0] != '*': continue
            t = T[obj[2]]
            if t['k'] == 'adt' and t['path'] == STATEFUL:
                for k, (n, fty) in enumerate(t['variants'][0]['fields']):
                    if n in ('cache', 'allocator', 'flags') or n in t['variants'][0].get('extra', ()): continue
                    if err and n != 'depth': continue
                    fz = m.freeze(st, m.snap(st, eng.read(st, obj, (('f', k, fty),))))
                    if fz != self.initial(eng, m, st, obj, k, fty): out['%s.%s' % (obj[1], n)] = fz
                continue
            # what a failed call leaves in the caller's buffer is part of the public contract
            if err and not (t['k'] == 'adt' and t['path'] == 'std::string::String'): continue
            if t['k'] == 'adt' and t['path'] in ('cache::NodeCache', 'bumpalo::Bump'): continue
            v = st.objs[obj]
            fz = m.freeze(st, m.snap(st, v))
            init = m.freeze(st, m.snap(st, eng.sym(st, obj[1] + '*', obj[2])))
            if not isinstance(v, int) and v[0] == 'X' and v[1] == 'out':
                if not fz[2]: continue
                fz = fz[1:]
            elif fz == init: continue
            out['*' + obj[1]] = fz
        return out

    def initial(self, eng, m, st, obj, k, fty):
        v = eng.sym(st, obj[1] + '*', obj[2])
        return m.freeze(st, m.snap(st, eng.proj_field(st, v, k, fty)))


def unknown(n):
    return '?' in n


class Mismatch:
    def __init__(self, unit, a, b, cs, rs):
        self.unit = unit; self.a = a; self.b = b; self.cs = cs; self.rs = rs

    def keys(self):
        return sorted(k for k in set(self.a) | set(self.b) if self.a.get(k) != self.b.get(k))


class Result:
    def __init__(self, name, f):
        self.name = name; self.f = f; self.leaves = 0; self.pairs = 0; self.bounded = 0; self.failing = 0
        self.mismatches = []; self.swallowed = []; self.diverging = []; self.unsup = {}; self.t = 0; self.rounds = 0; self.chains = 0
