"""Build the MIR of /repo and of the reference model, and load both into one program."""
import json, os, re, shutil, subprocess, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class BuildError(Exception): pass


def _run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def dump(srcs, keep=None):
    """srcs: {label: dir}; returns {label: parsed dump}. Everything is built in a scratch directory."""
    tmp = keep or tempfile.mkdtemp(prefix='undname-absint-')
    try:
        env = dict(os.environ); env['RUSTC_ICE'] = '0'; env['CARGO_INCREMENTAL'] = '0'
        env.pop('RUSTFLAGS', None); env.pop('RUSTC_WRAPPER', None)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, cwd='/').stdout.strip()
        env['LD_LIBRARY_PATH'] = sysroot + '/lib'
        drv = os.path.join(tmp, 'drv')
        _run(['cargo', '+nightly', 'build', '--offline', '--locked', '--target-dir', drv],
             os.path.join(VERIF, 'driver'), env)
        out = {}
        tgt = os.path.join(tmp, 'tgt')
        for label, d in srcs.items():
            o = os.path.join(tmp, label + '.json')
            e = dict(env, RUSTC_WORKSPACE_WRAPPER=os.path.join(drv, 'debug', 'mirdump'),
                     MIRDUMP_CRATE='undname', MIRDUMP_OUT=o)
            if os.path.exists(o): os.unlink(o)
            for sub in ('.fingerprint', 'build', 'incremental'):
                p = os.path.join(tgt, 'debug', sub)
                if os.path.isdir(p):
                    for n in os.listdir(p):
                        if n.startswith('undname'): shutil.rmtree(os.path.join(p, n), ignore_errors=True)
            # a copy: cargo never writes into the analysed tree, and the tree's own
            # cargo configuration cannot redirect the build
            src = os.path.join(tmp, 'src-' + label)
            shutil.rmtree(src, ignore_errors=True)
            os.makedirs(src)
            for n in os.listdir(d):
                if n in ('target', '.git', 'fuzz'): continue
                p = os.path.join(d, n)
                if os.path.isdir(p): shutil.copytree(p, os.path.join(src, n), symlinks=True)
                else: shutil.copy2(p, os.path.join(src, n))
            log = _run(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--target-dir', tgt], src, e)
            if not os.path.exists(o): raise BuildError('no dump produced\n' + log[-2000:])
            with open(o) as f: out[label] = json.load(f)
        return out
    finally:
        if keep is None: shutil.rmtree(tmp, ignore_errors=True)


_CLO = re.compile(r'\{closure@[^{}]*\}')


def norm_name(n):
    return _CLO.sub('{closure}', n)


class Merged:
    """One program holding the code under analysis ('code') and the reference model ('ref')."""

    def __init__(self, code, ref):
        import canon
        if code is not None: code = canon.canonical(code, ref)
        self.fns = []; self.types = []; self.vtables = []
        self.side = []          # per fn: 'code' | 'ref'
        self._loops = {}; self.codefn = {}
        self._load(ref, 'ref')
        nref_t, nref_f = len(self.types), len(self.fns)
        if code is not None:
            self._load(code, 'code', nref_t, nref_f)
            self._unify(nref_t, nref_f)
        self.raw = {'code': code, 'ref': ref}
        self.by_name = {'code': {}, 'ref': {}}
        self.by_path = {'code': {}, 'ref': {}}
        for i, f in enumerate(self.fns):
            s = self.side[i]
            self.by_name[s].setdefault(f['nname'], []).append(f)
            self.by_path[s].setdefault(f['path'], []).append(f)

    from engine import Program as _P
    loop_heads = _P.loop_heads
    loop_blocks = _P.loop_blocks

    def _load(self, d, side, to=0, fo=0):
        base = len(self.fns)
        for t in d['types']: self.types.append(shift_type(t, to, fo))
        for i, f in enumerate(d['fns']):
            g = dict(f); g['id'] = base + i; g['nname'] = norm_name(f['name'])
            for k in ('ret', 'impl_self'):
                if isinstance(g.get(k), int): g[k] += to
            if isinstance(g.get('ptys'), list): g['ptys'] = [x + to for x in g['ptys']]
            if isinstance(g.get('targs'), list):
                g['targs'] = [x + to if isinstance(x, int) and not isinstance(x, bool) else x for x in g['targs']]
            if f['body']: g['body'] = shift_body(f['body'], to, fo)
            g['side'] = side
            self.fns.append(g); self.side.append(side)

    def _unify(self, nt, nf):
        """Identify equal types of the two sides (greatest fixpoint), then rewrite the code side."""
        refs = {}
        for i in range(nt): refs.setdefault(self.tk(i), []).append(i)
        m = {}
        fmap = {}

        def pair(out, code, ref, key):
            # same-named items (several bitflags! in one module, closure instances) pair up in order
            a = {}; b = {}; taken = set(out.values())
            for i in code:
                if i not in out: a.setdefault(key(i), []).append(i)
            for i in ref:
                if i not in taken: b.setdefault(key(i), []).append(i)
            for k, l in a.items():
                c = b.get(k)
                if c and len(c) == len(l): out.update(zip(l, c))
        # a closure's place in the file says less than the function it is in
        where = [self.closures(0, nt), self.closures(nt, len(self.types))]
        named = lambda n, x: _CLO.sub(lambda q: '{%s}' % x.get(q.group(0), 'closure'), n)
        for loose in (False, True):
            tk = self.tk if loose else lambda i: 'closure ' + self.types[i]['path'] if self.types[i]['k'] == 'closure' else named(self.types[i]['s'], where[i >= nt])
            fk = lambda i: (self.fns[i]['nname'] if loose else named(self.fns[i]['name'], where[i >= nf]), self.fns[i]['kind'])
            pair(fmap, range(nf, len(self.fns)), range(nf), fk)
            pair(m, range(nt, len(self.types)), range(nt), tk)
        changed = True
        while changed:
            changed = False
            for i, j in list(m.items()):
                if not self._same(self.types[i], self.types[j], m, fmap):
                    del m[i]; changed = True
        self.tmap = m; self.fmap = fmap
        # a callable type shared by both sides has a body of its own on each
        self.codefn = {self.types[j]['fn']: self.types[i]['fn'] for i, j in m.items()
                       if isinstance(self.types[i].get('fn'), int) and isinstance(self.types[j].get('fn'), int)}
        for i in range(nt, len(self.types)):
            self.types[i] = remap_type(self.types[i], m)
        for f in self.fns[nf:]:
            for k in ('ret', 'impl_self'):
                if isinstance(f.get(k), int): f[k] = m.get(f[k], f[k])
            if isinstance(f.get('ptys'), list): f['ptys'] = [m.get(x, x) for x in f['ptys']]
            if f['body']: remap_body(f['body'], m)
        # align the names of variants and fields of changed definitions by position
        for i in range(nt, len(self.types)):
            if i in m: continue
            t = self.types[i]
            if t['k'] != 'adt' or not t.get('local'): continue
            c = refs.get(self.tk(i))
            if not c or len(c) != 1: continue
            r = self.types[c[0]]
            if r['k'] != 'adt' or r['adt'] != t['adt']: continue
            align(t, r)

    def fn_of_type(self, ty, side):
        fid = self.types[ty].get('fn')
        return self.codefn.get(fid, fid) if side == 'code' and isinstance(fid, int) else fid

    def closures(self, lo, hi):
        """place -> path of the closures"""
        r = {}
        for t in self.types[lo:hi]:
            if t['k'] == 'closure':
                q = _CLO.match(t['s'])
                if q: r[q.group(0)] = None if r.get(q.group(0), t['path']) != t['path'] else t['path']
        return {k: v for k, v in r.items() if v}

    def tk(self, i):
        t = self.types[i]
        if t['k'] == 'closure': return 'closure ' + t['path']
        return norm_name(t['s'])

    def _same(self, a, b, m, fmap):
        if a['k'] != b['k']: return False
        k = a['k']
        g = lambda x: m.get(x, x)
        for key in ('to',):
            if key in a or key in b:
                if a.get(key) is None or b.get(key) is None:
                    if a.get(key) != b.get(key): return False
                elif g(a[key]) != b[key]: return False
        for key in ('bits', 'signed', 'mut', 'len', 'path', 'adt', 'trait'):
            if a.get(key) != b.get(key): return False
        if 'fields' in a:
            if len(a['fields']) != len(b['fields']) or any(g(x) != y for x, y in zip(a['fields'], b['fields'])): return False
        if 'args' in a and isinstance(a['args'], list):
            if len(a['args']) != len(b['args']): return False
            for x, y in zip(a['args'], b['args']):
                if isinstance(x, int) and not isinstance(x, bool) and g(x) != y: return False
        if 'variants' in a:
            if len(a['variants']) != len(b['variants']): return False
            for v, w in zip(a['variants'], b['variants']):
                if v['name'] != w['name'] or v['discr'] != w['discr'] or len(v['fields']) != len(w['fields']): return False
                for (n, x), (q, y) in zip(v['fields'], w['fields']):
                    if n != q or g(x) != y: return False
        if k in ('fndef', 'closure'):
            if (a.get('fn') is None) != (b.get('fn') is None): return False
            if k == 'fndef' and a.get('fn') is not None and fmap.get(a['fn'], a['fn']) != b['fn']: return False
        return True


def align(t, r):
    tv, rv = t['variants'], r['variants']
    tn = {v['name'] for v in tv}; rn = {v['name'] for v in rv}
    for idx, v in enumerate(tv):
        w = next((x for x in rv if x['name'] == v['name']), None)
        if w is None and len(tv) == len(rv) and rv[idx]['name'] not in tn:
            w = rv[idx]; v['name'] = w['name']
        if w is None: continue
        fn = {n for n, _ in v['fields']}
        if len(v['fields']) == len(w['fields']):
            v['fields'] = [[q if n not in {x for x, _ in w['fields']} and q not in fn else n, ty]
                           for (n, ty), (q, _) in zip(v['fields'], w['fields'])]


def shift_type(t, to, fo):
    t = dict(t)
    if isinstance(t.get('to'), int): t['to'] += to
    if 'fields' in t: t['fields'] = [x + to for x in t['fields']]
    if isinstance(t.get('args'), list): t['args'] = [x + to if isinstance(x, int) and not isinstance(x, bool) else x for x in t['args']]
    if 'variants' in t:
        t['variants'] = [dict(v, fields=[[n, x + to] for n, x in v['fields']]) for v in t['variants']]
    if isinstance(t.get('fn'), int): t['fn'] += fo
    return t


def remap_type(t, m):
    t = dict(t); g = lambda x: m.get(x, x)
    if isinstance(t.get('to'), int): t['to'] = g(t['to'])
    if 'fields' in t: t['fields'] = [g(x) for x in t['fields']]
    if isinstance(t.get('args'), list): t['args'] = [g(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in t['args']]
    if 'variants' in t:
        t['variants'] = [dict(v, fields=[[n, g(x)] for n, x in v['fields']]) for v in t['variants']]
    return t


def walk_const(c, ty, tf, ff):
    if not isinstance(c, dict): return c
    c = dict(c)
    if c.get('k') in ('fn', 'promoted') and isinstance(c.get('id'), int): c['id'] = ff(c['id'])
    if isinstance(c.get('v'), dict): c['v'] = walk_const(c['v'], ty, tf, ff)
    if isinstance(c.get('f'), list): c['f'] = [walk_const(x, ty, tf, ff) for x in c['f']]
    return c


def map_place(p, tf):
    out = [p[0]]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'f': out.append(['f', e[1], tf(e[2])])
        else: out.append(e)
    return out


def map_op(o, tf, ff):
    if o[0] in ('c', 'm'): return [o[0], map_place(o[1], tf)]
    if o[0] == 'k': return ['k', tf(o[1]), walk_const(o[2], o[1], tf, ff)]
    return o


def map_rv(rv, tf, ff):
    k = rv[0]
    if k == 'use': return [k, map_op(rv[1], tf, ff)]
    if k in ('ref', 'rawptr'): return [k, rv[1], map_place(rv[2], tf)] + rv[3:]
    if k == 'bin': return [k, rv[1], map_op(rv[2], tf, ff), map_op(rv[3], tf, ff), tf(rv[4])]
    if k == 'un': return [k, rv[1], map_op(rv[2], tf, ff)] + [tf(x) for x in rv[3:]]
    if k == 'cast': return [k, rv[1], map_op(rv[2], tf, ff), tf(rv[3]), tf(rv[4])]
    if k == 'discr': return [k, map_place(rv[1], tf), tf(rv[2])]
    if k == 'agg': return [k, rv[1], tf(rv[2]), [map_op(o, tf, ff) for o in rv[3]]]
    if k == 'repeat': return [k, map_op(rv[1], tf, ff)] + rv[2:]
    return rv


def map_body(b, tf, ff):
    b['locals'] = [tf(x) for x in b['locals']]
    for bb in b['blocks']:
        if bb is None: continue
        ss = []
        for s in bb['s']:
            if s[0] == '=': ss.append(['=', map_place(s[1], tf), map_rv(s[2], tf, ff)] + s[3:])
            elif s[0] == 'setd': ss.append(['setd', map_place(s[1], tf), s[2]])
            elif s[0] == 'assume': ss.append(['assume', map_op(s[1], tf, ff)])
            else: ss.append(s)
        bb['s'] = ss
        t = bb['t']
        if t[0] == 'switch': t = [t[0], map_op(t[1], tf, ff), t[2], t[3], tf(t[4])] + t[5:]
        elif t[0] == 'drop': t = [t[0], map_place(t[1], tf), t[2], tf(t[3])] + t[4:]
        elif t[0] == 'assert': t = [t[0], map_op(t[1], tf, ff), t[2], t[3], [map_op(o, tf, ff) for o in t[4]]] + t[5:]
        elif t[0] == 'call':
            c = t[1]
            if c[0] == 'fn': c = ['fn', ff(c[1])]
            elif c[0] == 'ind': c = ['ind', map_op(c[1], tf, ff)]
            rest = t[6:]
            if rest and isinstance(rest[0], int): rest = [tf(rest[0])] + rest[1:]
            t = [t[0], c, [map_op(o, tf, ff) for o in t[2]], map_place(t[3], tf), t[4], t[5]] + rest
        bb['t'] = t
    return b


def shift_body(b, to, fo):
    b = json.loads(json.dumps(b)) if False else dict(b, blocks=[None if x is None else dict(x) for x in b['blocks']])
    return map_body(b, lambda x: x + to, lambda x: x + fo)


def remap_body(b, m):
    map_body(b, lambda x: m.get(x, x), lambda x: x)
