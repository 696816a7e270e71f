"""Summaries of the parts of std, bumpalo, arrayvec, smallvec and of the demangler's data
structures (strings, growing sequences, node handles, output buffers) that the abstract
interpreter does not look into, and canonical forms of abstract values for comparison."""
import re
from engine import Split, Infeasible, Unsupported, iv_inter, iv_minus, iv_norm, iv_size, CHAR_DOM, S

CHARE = ((-1, -1),) + CHAR_DOM
ASCII = ((0, 127),)


def short(path):
    p = re.sub(r"<[^<>]*>", '', path)
    while '<' in p:
        q = re.sub(r"<[^<>]*>", '', p)
        if q == p: break
        p = q
    return [x for x in p.split('::') if x][-1] if p else path


class Models:
    def __init__(self, prog, eng, low=False):
        self.final = False
        self.p = prog; self.e = eng; self.T = prog.types
        self.low = low               # True: analyse the string/handle primitives themselves
        self.used = {}               # model name -> count
        self.table = []
        self.cache = {}
        self.mode = 'code'
        self.base_calls = ()
        self.uncut = set(); self.forking = True; self.lsp_unit = False
        self.fields = None
        eng.models = self.lookup
        h = eng.hooks
        h['proj'] = self.h_proj; h['index'] = self.h_index; h['seqlen'] = self.h_seqlen
        h['subslice'] = self.h_subslice; h['vswitch'] = self.h_vswitch; h['vfield'] = self.h_vfield
        h['xfield'] = self.h_xfield; h['xdiscr'] = self.h_xdiscr; h['xupd'] = self.h_xupd; h['unsize'] = self.h_unsize
        h['havoc'] = self.h_havoc; h['refine'] = self.h_refine
        h['binop'] = self.h_binop; h['widths'] = self.h_width; h['deref'] = self.h_deref
        self._scan()
        self._reg()

    # ------------------------------------------------------------ program facts
    def _scan(self):
        T = self.T
        self.kinds = []; self.kind_of = {}
        for i, t in enumerate(T):
            if t['k'] == 'adt' and t['path'] == 'cache::NodeStorage':
                for j, v in enumerate(t['variants']):
                    if v['name'] not in self.kinds: self.kinds.append(v['name'])
                    if v['fields']:
                        x = self.pointee(v['fields'][0][1])
                        if x is not None: self.kind_of[T[x]['path']] = self.kinds.index(v['name'])
        self._kt = {}
        self.res_kinds = {}
        for f in self.p.fns:
            if f['path'].endswith('NodeHandle::<T>::resolve') or f['path'].endswith('NodeHandle::<T>::resolve_mut'):
                ret = f.get('ret')
                if ret is None and f['body']: ret = f['body']['locals'][0]
                m = re.search(r'NodeHandle::<(.*?)>::resolve', f['nname'])
                if m and ret is not None:
                    try: self.res_kinds[m.group(1)] = self.kinds_of(ret)
                    except Unsupported: pass

    def pointee(self, ty):
        t = self.T[ty]
        return t['to'] if t['k'] in ('ref', 'ptr') else None

    def kinds_of(self, ty):
        """node kinds a reference type or view enum can stand for"""
        r = self._kt.get(ty)
        if r is None:
            t = self.T[ty]
            if t['k'] in ('ref', 'ptr'):
                p = self.T[t['to']].get('path')
                if p not in self.kind_of: raise Unsupported('kinds of ' + t['s'])
                r = frozenset([self.kind_of[p]])
            elif t['k'] == 'adt' and t['adt'] == 'enum' and all(len(v['fields']) == 1 for v in t['variants']):
                r = frozenset().union(*[self.kinds_of(v['fields'][0][1]) for v in t['variants']])
            else: raise Unsupported('kinds of ' + t['s'])
            self._kt[ty] = r
        return r

    def is_view(self, ty):
        t = self.T[ty]
        if t['k'] != 'adt' or t['adt'] != 'enum' or 'intermediate' not in t['path']: return False
        try: self.kinds_of(ty)
        except Unsupported: return False
        return True

    def handle_kinds(self, resolver):
        r = self.res_kinds.get(resolver)
        if r: return r
        n = resolver.split('::')[-1]
        if n in self.kinds: return frozenset([self.kinds.index(n)])
        return frozenset(range(len(self.kinds)))

    # ------------------------------------------------------------ handles and nodes
    def h_proj(self, eng, st, v, i, fty, var):
        t = self.T[v[2]]
        if t['k'] != 'adt': return None
        if t['path'] == 'mangled_string::MangledString':
            fs = t['variants'][0]['fields']
            if len(fs) == 2 and self.T[fs[i][1]]['s'] == 'usize':
                other = fs[1 - i]
                if self.T[other[1]]['s'] == '&str':
                    return self.count(st, ('X', 'str', v[1] + '.' + other[0], 0, None))
        elif t['path'] == 'cache::NodeHandle':
            st.x[('hk', v[1])] = self.T[t['args'][0]]['s']
        return None

    def hkey(self, st, h):
        """identity of a node handle: ('i', k) for an interned node, else a symbol name"""
        for _ in range(4):
            if isinstance(h, int): raise Unsupported('handle int')
            if h[0] == 'X' and h[1] == 'h': return h[2]
            if h[0] == 'S':
                t = self.T[h[2]]
                if t['k'] == 'adt' and t['path'] == 'cache::NodeHandle': st.x[('hk', h[1])] = self.T[t['args'][0]]['s']
                return h[1]
            if h[0] == 'A': h = h[3][0]; continue
            if h[0] == 'R': h = self.e.read(st, h[1], h[2]); continue
        raise Unsupported('handle %r' % (h,))

    def kdom(self, st, key):
        n = 'discr(N(%s))' % key
        d = st.dom.get(n)
        if d is None:
            r = st.x.get(('hk', key))
            ks = self.handle_kinds(r) if r else frozenset(range(len(self.kinds)))
            d = iv_norm([(k, k) for k in ks]); st.dom[n] = d
        return n, d

    def node_obj(self, st, key, nodety):
        if isinstance(key, tuple) and key[0] == 'i': return ('node', key[1])
        ver = st.x.get(('ver', key), '')
        return ('*', 'N(%s)%s' % (key, ver), nodety)

    def view(self, st, key, ty):
        """value of type ty (a &Node or a view enum) for the node of a handle"""
        T = self.T
        if isinstance(key, tuple):      # interned: kind known
            k = st.x[('nk', key[1])]
            return self.view_known(st, key, ty, k)
        n, d = self.kdom(st, key)
        ks = self.kinds_of(ty)
        want = iv_norm([(k, k) for k in ks])
        inn = iv_inter(d, want); out = iv_minus(d, want)
        if out:
            if not inn: return None
            self.e.split_dom(n, -1, [inn, out])
        if T[ty]['k'] == 'ref': return ('R', self.node_obj(st, key, T[ty]['to']), ())
        return ('V', key, ty)

    def view_known(self, st, key, ty, k):
        T = self.T
        if T[ty]['k'] in ('ref', 'ptr'):
            if self.kind_of.get(T[T[ty]['to']].get('path')) != k: return None
            return ('R', self.node_obj(st, key, T[ty]['to']), ())
        for i, v in enumerate(T[ty]['variants']):
            if k in self.kinds_of(v['fields'][0][1]):
                return ('A', ty, i, (self.view_known(st, key, v['fields'][0][1], k),))
        return None

    def h_vswitch(self, eng, st, v, pairs, other):
        n, d = self.kdom(st, v[1])
        t = self.T[v[2]]
        groups = {}; rep = {}
        pm = dict((a, b) for a, b in pairs)
        for vi, va in enumerate(t['variants']):
            ks = self.kinds_of(va['fields'][0][1])
            inn = [k for k in ks if iv_inter(d, ((k, k),))]
            if not inn: continue
            tgt = pm.get(va['discr'], other)
            groups.setdefault(tgt, []).extend(inn); rep.setdefault(tgt, va['discr'])
        if len(groups) == 1: return next(iter(rep.values()))
        if not groups: raise Infeasible()
        eng.split_dom(n, -1, [iv_norm([(k, k) for k in g]) for g in groups.values()])

    def h_vfield(self, eng, st, v, i, fty, var):
        n, d = self.kdom(st, v[1])
        ft = self.T[v[2]]['variants'][var or 0]['fields'][0][1]
        if self.T[ft]['k'] in ('ref', 'ptr'):
            return ('R', self.node_obj(st, v[1], self.T[ft]['to']), ())
        return ('V', v[1], ft)

    # ------------------------------------------------------------ strings
    def as_str(self, st, v):
        for _ in range(6):
            if v[0] == 'T': return v
            if v[0] == 'X' and v[1] == 'str': return v
            if v[0] == '&': v = v[1]; continue
            if v[0] == 'X' and v[1] == 'out': return v
            if v[0] == 'S':
                t = self.T[v[2]]
                if t['k'] == 'str': return ('X', 'str', v[1], 0, None)
                if t['k'] == 'ref' and self.T[t['to']]['k'] == 'str': return ('X', 'str', v[1], 0, None)
                if t['k'] == 'ref' and self.T[t['to']]['k'] == 'ref':
                    v = self.e.read(st, ('*', v[1], t['to']), ()); continue
                raise Unsupported('str %r' % (v,))
            if v[0] == 'R':
                o = v[1]
                if o[0] == '*' and self.T[o[2]]['k'] == 'str': return ('X', 'str', o[1], 0, None)
                v = self.e.read(st, v[1], v[2]); continue
            break
        raise Unsupported('str %r' % (v,))

    def chsym(self, st, base, n):
        nm = '%s[%d]' % (base, n)
        d = st.dom.get(nm)
        if d is None:
            d = CHARE; st.dom[nm] = d
        if d == ((-1, -1),): return -1
        if d[0][0] == -1 and n > 0:
            # the end of the input stays the end
            p = st.dom.get('%s[%d]' % (base, n - 1))
            if p == ((-1, -1),):
                st.dom[nm] = p; return -1
        if iv_size(d) == 1: return d[0][0]
        st.x[('ty', nm)] = self.e.chty
        return ('S', nm, self.e.chty)

    def charat(self, st, s, i):
        if s[0] == 'T':
            t = s[1]
            return ord(t[i]) if i < len(t) else -1
        _, _, base, a, b = s
        if b is not None and a + i >= b: return -1
        return self.chsym(st, base, a + i)

    def at_end(self, st, s, i=0):
        c = self.charat(st, s, i)
        if isinstance(c, int): return c == -1
        d = st.dom[c[1]]
        if d[0][0] != -1: return False
        rest = iv_minus(d, ((-1, -1),))
        if not rest: return True
        if s[3] + i == 0:
            l = st.subst.get('B@' + s[2])
            if l is not None:
                lo, hi = self.e.interval(st, self.linv(*self.e.lin_norm(st, l[0], dict(l[1]))))
                if lo >= 1: self.e.refine(st, c[1], self.e.chty, rest); return False
                if hi <= 0: self.e.refine(st, c[1], self.e.chty, ((-1, -1),)); return True
        self.e.split_dom(c[1], self.e.chty, [((-1, -1),), rest])

    def has(self, st, s, i):
        """character i exists (splits if unknown); returns it or None"""
        if s[0] == 'X':
            for k in range(i + 1):
                if self.at_end(st, s, k): return None
        elif self.at_end(st, s, i): return None
        return self.charat(st, s, i)

    def h_width(self, st, sym):
        """byte width of a character symbol 'w:base[n]' if determined"""
        d = st.dom.get(sym[2:])
        if not d: return None
        d = iv_minus(d, ((-1, -1),)) or d
        w = lambda c: 0 if c < 0 else 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
        a, b = w(d[0][0]), w(d[-1][1])
        return a if a == b else None

    def width(self, st, base, n):
        c = self.chsym(st, base, n)
        if isinstance(c, int): return (0 if c < 0 else len(chr(c).encode()), {})
        w = self.h_width(st, 'w:' + c[1])
        if w is not None: return (w, {})
        st.dom.setdefault('w:' + c[1], ((0 if st.dom[c[1]][0][0] < 0 else 1, 4),))
        return (0, {'w:' + c[1]: 1})

    def linv(self, c, d): return self.e.mklin(c, d)

    def count(self, st, s):
        """number of characters"""
        if s[0] == 'T': return len(s[1])
        _, _, base, a, b = s
        if b is not None: return b - a
        d = {('C@' + base): 1}
        return self.linv(*self.e.lin_norm(st, -a, d))

    def nbytes(self, st, s):
        if s[0] == 'T': return len(s[1].encode())
        if s[1] == 'out': return self.out_bytes(st, s)
        _, _, base, a, b = s
        if b is not None:
            c = 0; d = {}
            for n in range(a, b):
                w = self.width(st, base, n); c += w[0]
                for k, q in w[1].items(): d[k] = d.get(k, 0) + q
            return self.linv(*self.e.lin_norm(st, c, d))
        c = 0; d = {('B@' + base): 1}
        for n in range(a):
            w = self.width(st, base, n); c -= w[0]
            for k, q in w[1].items(): d[k] = d.get(k, 0) - q
        return self.linv(*self.e.lin_norm(st, c, d))

    def out_bytes(self, st, s):
        """how long an assembled text is"""
        if s[2] is not None: raise Unsupported('length of a text')
        r = 0
        for it in self.flat(s[3]):
            if it[0] == 'lit': n = len(it[1].encode())
            elif it[0] == 'fmt' and it[2] == 'display' and not it[3]:
                v = self.norm(st, it[1])
                if isinstance(v, int): n = len(str(v))
                elif v[0] in ('S', 'L', 'O') and self.int_of(it[1]): n = self.digits(st, v)
                elif v[0] == 'T' or v[0] == 'X' and v[1] == 'str': n = self.nbytes(st, v)
                else: raise Unsupported('length of a formatted value')
            else: raise Unsupported('length of a formatted value')
            r = self.e.binop(st, 'AddUnchecked', r, n, self.e.uty)
        return r

    def int_of(self, v):
        t = self.T[v[2]] if v[0] == 'S' and v[2] >= 0 else self.T[v[3]] if v[0] == 'O' else None
        return t is not None and t['k'] in ('int', 'uint') or v[0] == 'L'

    def digits(self, st, v):
        """how many characters the decimal form of a number has"""
        if self.e.compare(st, 'Lt', v, 0):
            for n in range(1, 40):
                if self.e.compare(st, 'Gt', v, -10 ** n): return n + 1
        for n in range(1, 40):
            if self.e.compare(st, 'Lt', v, 10 ** n): return n
        raise Unsupported('digits')

    def flat(self, items):
        """pieces, with texts assembled before taken apart"""
        out = []
        for it in items:
            if it[0] == 'fmt' and it[2] == 'display' and not it[3] and not isinstance(it[1], int) and it[1][:2] == ('X', 'out') and it[1][2] is None:
                out += self.flat(it[1][3])
            elif it[0] == 'fmt' and it[2] == 'display' and not it[3] and it[1] == ('X', 'seq', None, (), self.e.u8ty): continue
            else: out.append(it)
        return out

    def adv(self, s, n):
        if s[0] == 'T': return ('T', s[1][n:])
        return ('X', 'str', s[2], s[3] + n, s[4])

    def byte_to_char(self, st, s, off):
        """character index of byte offset off, or None"""
        if isinstance(off, int) and off == 0: return 0
        if s[0] == 'T':
            if isinstance(off, int):
                b = s[1].encode()
                if off > len(b): return None
                try: return len(b[:off].decode())
                except UnicodeDecodeError: return None
            return None
        l = self.e.lin(st, off)
        if l is None: return None
        if any(not n.startswith('w:') for n in l[1]): return None
        c, d = 0, {}
        for k in range(0, 400):
            if c == l[0] and d == l[1]: return k
            ch = self.charat(st, s, k)
            if ch == -1: return None
            w = self.width(st, s[2], s[3] + k)
            c += w[0]
            for n, q in w[1].items(): d[n] = d.get(n, 0) + q
            if isinstance(off, int) and not d and c > off: return None
        return None

    def split_str(self, st, s, off, what='cut'):
        """(prefix, rest) of s at a symbolic byte offset; None when not representable"""
        k = self.byte_to_char(st, s, off)
        if k is not None:
            if s[0] == 'T': return ('T', s[1][:k]), ('T', s[1][k:])
            if k and self.has(st, s, k - 1) is None: return None
            return ('X', 'str', s[2], s[3], s[3] + k), ('X', 'str', s[2], s[3] + k, s[4])
        s = self.norm(st, s)
        if s[0] == 'T' and not s[1]: raise Unsupported('split of an empty text')
        fs = self.find_cut(st, s, off)
        if fs is not None:
            k, t, n, c = fs
            pre0, post0 = self.cut_at(st, t, ('S', n, self.e.uty))
            kk = 0 if c == 0 else self.byte_to_char(st, post0, c)
            if kk is not None:
                post = self.adv(post0, kk)
                if k == 0 and kk == 0: return pre0, post
                nm = self.named(st, 'cut', [s, off])
                p = ('X', 'str', nm, 0, None)
                l = self.e.lin(st, self.count(st, pre0))
                if l: st.subst.setdefault('C@' + nm, (l[0] + k + kk, dict(l[1])))
                l = self.e.lin(st, off)
                if l: st.subst.setdefault('B@' + nm, (l[0], dict(l[1])))
                st.x[('cutof', nm)] = (s, off)
                if kk: st.x[('lastof', nm)] = self.charat(st, post0, kk - 1)
                return p, post
        if s[0] == 'X' and s[1] == 'str' and s[3] == 0 and s[4] is None:
            co = st.x.get(('cutof', s[2]))
            if co is not None:
                d = self.lin_diff(st, co[1], off)
                if d is not None and d >= 0: return self.split_str(st, co[0], off)[0], ('X', 'str', self.named(st, 'mid', [s, off]), 0, None)
        return self.cut_at(st, s, off)

    def cut_at(self, st, s, off):
        nm = self.named(st, 'split', [s, off])
        a, b = nm + '.pre', nm + '.post'
        tail = self.lin_diff(st, self.nbytes(st, s), off) if s[0] == 'X' and s[4] is None else None
        if tail is not None:
            # so many bytes before the end
            st.subst.setdefault('B@' + b, (tail, {}))
            l = self.e.lin(st, off)
            if l: st.subst.setdefault('B@' + a, (l[0], dict(l[1])))
            l = self.e.lin(st, self.count(st, s))
            if l: st.subst.setdefault('C@' + a, (l[0], {**dict(l[1]), 'C@' + b: -1}))
            if tail == 1: st.subst.setdefault('C@' + b, (1, {}))
        elif s[0] == 'X' and s[4] is None:
            st.subst.setdefault('C@' + s[2], (s[3], {'C@' + a: 1, 'C@' + b: 1}))
            # byte lengths
            l = self.e.lin(st, off)
            if l: st.subst.setdefault('B@' + a, (l[0], dict(l[1])))
            p = self.e.lin(st, self.nbytes(st, ('X', 'str', s[2], 0, s[3])))
            if p and 'B@' + s[2] not in st.subst:
                dd = dict(p[1])
                for q in (a, b): dd['B@' + q] = dd.get('B@' + q, 0) + 1
                st.subst['B@' + s[2]] = (p[0], dd)
        # a split at the position of a searched character: the rest starts with it
        l = self.e.lin(st, off)
        if l and len(l[1]) == 1:
            (n, q), = l[1].items()
            fc = st.x.get(('find', n))
            if fc and q == 1 and l[0] == 0 and fc[0] == self.freeze(st, s):
                st.dom[b + '[0]'] = ((fc[1], fc[1]),)
        return ('X', 'str', a, 0, None), ('X', 'str', b, 0, None)

    def lin_diff(self, st, a, b):
        """a - b when it is a constant"""
        la, lb = self.e.lin(st, a), self.e.lin(st, b)
        if la is None or lb is None or la[1] != lb[1]: return None
        return la[0] - lb[0]

    def find_cut(self, st, s, off):
        """off lies c bytes after a character that was searched for in the rest of s after k characters: (k, rest, name, c)"""
        l = self.e.lin(st, off)
        if l is None or s[0] != 'X' or s[1] != 'str': return None
        for n, q in l[1].items():
            fc = st.x.get(('find', n))
            if fc is None or q != 1: continue
            for k in range(0, 9):
                if k:
                    d = st.dom.get('%s[%d]' % (s[2], s[3] + k - 1)) if s[4] is None or s[3] + k <= s[4] else None
                    if d is None or d[0][0] < 0: break
                t = self.adv(s, k)
                if self.freeze(st, t) != fc[0]: continue
                p = self.e.lin(st, self.nbytes(st, ('X', 'str', s[2], s[3], s[3] + k))) if k else (0, {})
                r = dict(l[1]); del r[n]
                if p is None or p[1] != r or l[0] < p[0]: continue
                return k, t, n, l[0] - p[0]
        return None

    def cuttable(self, st, s, off):
        """is the byte offset within s and on a character boundary?"""
        e = self.e
        s = self.norm(st, s)
        k = self.byte_to_char(st, s, off)
        if k is not None: return not (k and self.has(st, s, k - 1) is None)
        if s[0] == 'T' and isinstance(off, int): return False
        if self.lin_diff(st, self.nbytes(st, s), off) == 0: return True
        if s[0] == 'X' and s[1] == 'str' and self.lin_diff(st, self.nbytes(st, s), off) == 1 and not self.at_end(st, s):
            c = self.last_of(st, s)
            if e.compare(st, 'Lt', c, 0x80): return True
        fs = self.find_cut(st, s, off)
        if fs is not None and (fs[3] == 0 or fs[3] == len(chr(st.x[('find', fs[2])][1]).encode())): return True
        if s[0] == 'X' and s[1] == 'str' and s[3] == 0 and s[4] is None:
            co = st.x.get(('cutof', s[2]))
            if co is not None:
                d = self.lin_diff(st, co[1], off)
                if d is not None and d >= 0: return self.cuttable(st, co[0], off)
        nm = self.named(st, 'splittable', [s, off])
        st.dom.setdefault(nm, ((0, 1),)); st.x[('ty', nm)] = e.ubool
        return e.truth(st, e.sym(st, nm, e.ubool))

    def h_refine(self, eng, st, name, d):
        """a text cut at a known offset: whether it has characters and the offset go together"""
        if name[-1:] != ']' or not d: return
        base = name[:name.rfind('[')]
        s = st.subst.get('B@' + base)
        if s is None: return
        lo, hi = eng.lens(st, 'B@' + base)
        c, q = eng.lin_norm(st, s[0], dict(s[1]))
        if not q:
            if not lo <= c <= hi: raise Infeasible()
        elif len(q) == 1 and list(q.values()) == [1]:
            n = next(iter(q))
            if n[:2] in ('C@', 'B@') or not (lo > 0 or hi < 2**60): return
            ty = st.x.get(('ty', n), -1)
            eng.refine(st, n, ty, ((lo - c, hi - c),))

    # ------------------------------------------------------------ sequences
    def seq(self, st, v):
        """sequence value -> ('X','seq',base,items,ety)"""
        if v[0] == 'X' and v[1] == 'seq': return v
        if v[0] == 'A' and self.T[v[1]]['k'] in ('array', 'slice'): return ('X', 'seq', None, v[3], self.T[v[1]]['to'])
        if v[0] == 'A' and len(v[3]) == 1: return self.seq(st, v[3][0])
        if v[0] == 'S':
            t = self.T[v[2]]
            if t['k'] in ('slice', 'array'): return ('X', 'seq', v[1], (), t['to'])
            if t['k'] == 'adt':
                if 'ManuallyDrop' in t['path'] or 'MaybeDangling' in t['path']:
                    a = t.get('args') or []
                    return self.seq(st, ('S', v[1], a[0]))
                a = [x for x in t.get('args') or [] if isinstance(x, int) and not isinstance(x, bool)]
                if a:
                    e = a[0]
                    if self.T[e]['k'] == 'array': e = self.T[e]['to']
                    return ('X', 'seq', v[1], (), e)
        if v[0] == 'X' and v[1] == 'out': return ('X', 'seq', self.named(st, 'bytes', [v]), (), self.e.u8ty)
        raise Unsupported('seq %r' % (v,))

    def nsym(self, st, base):
        n = 'N@' + base
        if n not in st.dom: st.dom[n] = ((0, 2**60),)
        d = st.dom[n]
        if iv_size(d) == 1: return d[0][0]
        st.x.setdefault(('ty', n), self.e.uty)
        return ('S', n, self.e.uty)

    def seq_len(self, st, q):
        if q[2] is None: return len(q[3])
        return self.e.binop(st, 'AddUnchecked', self.nsym(st, q[2]), len(q[3]), self.e.uty)

    def elem(self, st, q, k):
        eng = self.e
        if q[2] is None:
            if isinstance(k, int):
                if 0 <= k < len(q[3]): return q[3][k]
                raise Infeasible()
            if len(q[3]) == 1: return q[3][0]
            k = eng.concretize(st, k)
            return self.elem(st, q, k)
        n = self.nsym(st, q[2])
        if q[3]:
            if not eng.compare(st, 'Lt', k, n):
                d = eng.binop(st, 'SubUnchecked', k, n, eng.uty)
                if isinstance(d, int): return q[3][d]
                return q[3][eng.concretize(st, d)]
        kk = k if isinstance(k, int) else eng.show(self.norm(st, k))
        return eng.sym(st, '%s{%s}' % (q[2], kk), q[4])

    def sl(self, st, v):
        """slice reference -> ('X','sl',obj,path,lo,hi)"""
        if v[0] == 'X' and v[1] == 'sl': return v
        if v[0] == 'X' and v[1] == 'slice': return ('X', 'sl', v[2][0], v[2][1], v[3], v[4])
        if v[0] == 'S' and self.T[v[2]]['k'] in ('ref', 'ptr'):
            return ('X', 'sl', ('*', v[1], self.T[v[2]]['to']), (), 0, None)
        if v[0] == 'R':
            t = self.getv(st, v)
            if not isinstance(t, int) and t[0] == 'R': return self.sl(st, t)
            if not isinstance(t, int) and t[0] == 'X' and t[1] in ('sl', 'slice'): return self.sl(st, t)
            if not isinstance(t, int) and t[0] == 'S' and self.T[t[2]]['k'] in ('ref', 'ptr'): return self.sl(st, t)
            return ('X', 'sl', v[1], v[2], 0, None)
        if v[0] == 'A' or v[0] == 'X':
            st.nfid += 1
            o = ('tmp', st.nfid); st.objs[o] = v
            return ('X', 'sl', o, (), 0, None)
        if v[0] == '&': return self.sl(st, v[1])
        if v[0] == 'T':
            # the bytes of a literal
            u8 = self.e.u8ty
            o = ('tmp', 'T' + v[1]); st.objs[o] = ('X', 'seq', None, tuple(v[1].encode('utf8')), u8)
            return ('X', 'sl', o, (), 0, None)
        raise Unsupported('slice %r' % (v,))

    def getv(self, st, v):
        if v[0] == 'R': return self.e.read(st, v[1], v[2])
        if v[0] == '&': return v[1]
        if v[0] == 'S':
            r = self.e.deref(st, v)
            return self.e.read(st, r[1], r[2])
        return v

    def sl_seq(self, st, s):
        return self.seq(st, self.e.read(st, s[2], s[3]))

    def sl_hi(self, st, s):
        return s[5] if s[5] is not None else self.seq_len(st, self.sl_seq(st, s))

    def sl_len(self, st, s):
        return self.e.binop(st, 'SubUnchecked', self.sl_hi(st, s), s[4], self.e.uty)

    def sl_ref(self, st, s, k):
        k = self.e.binop(st, 'AddUnchecked', s[4], k, self.e.uty)
        return ('R', s[2], s[3] + (('x', k),))

    def h_index(self, eng, st, v, k):
        if v[0] == 'X' and v[1] in ('sl', 'slice'):
            s = self.sl(st, v)
            k = eng.binop(st, 'AddUnchecked', s[4], k, eng.uty)
            return self.elem(st, self.sl_seq(st, s), k)
        return self.elem(st, self.seq(st, v), k)

    def h_seqlen(self, eng, st, v):
        if v[0] == 'T': return len(v[1].encode())
        if v[0] == 'X' and v[1] == 'str': return self.nbytes(st, v)
        if v[0] == 'S' and self.T[v[2]]['k'] == 'ref':
            to = self.T[v[2]]['to']
            if self.T[to]['k'] == 'str': return self.nbytes(st, self.as_str(st, v))
        if v[0] == 'X' and v[1] in ('sl', 'slice') or v[0] == 'S' and self.T[v[2]]['k'] in ('ref', 'ptr'):
            return self.sl_len(st, self.sl(st, v))
        return self.seq_len(st, self.seq(st, v))

    def h_subslice(self, eng, st, v, frm, to, fromend):
        if v[0] in ('A', 'S') or v[0] == 'X' and v[1] == 'seq':
            st.nfid += 1
            o = ('tmp', st.nfid); st.objs[o] = v
            s = ('X', 'sl', o, (), 0, None)
        else: s = self.sl(st, v)
        hi = eng.binop(st, 'SubUnchecked', self.sl_hi(st, s), to, eng.uty) if fromend else to
        return ('X', 'sl', s[2], s[3], eng.binop(st, 'AddUnchecked', s[4], frm, eng.uty), hi)

    def h_xfield(self, eng, st, v, i, fty):
        if v[1] == 'out': return v if i == 0 else None
        return None

    def h_xdiscr(self, eng, st, v): return None

    def h_xupd(self, eng, st, v, path, i, val):
        el = path[i]
        if v[1] == 'out' and el[0] == 'f' and i + 1 == len(path): return val
        if v[1] == 'seq' and v[2] is None and el[0] == 'x':
            k = eng.concretize(st, el[1])
            if not 0 <= k < len(v[3]): raise Infeasible()
            its = list(v[3]); its[k] = eng.upd(st, its[k], path, i + 1, val)
            return ('X', 'seq', None, tuple(its), v[4])
        return None

    def h_deref(self, eng, st, v): return None

    def h_unsize(self, eng, st, v, to, frm):
        tt = self.T[self.T[to]['to']] if self.T[to].get('to') is not None else None
        if tt and tt['k'] == 'slice' and v[0] == 'R':
            return ('X', 'sl', v[1], v[2], 0, None)
        return None

    def h_binop(self, eng, st, op, a, b, ty):
        if self.T[ty]['k'] in ('ptr', 'ref') and op in ('Eq', 'Ne'):
            fa, fb = self.freeze(st, self.snap(st, a)), self.freeze(st, self.snap(st, b))
            if a == b: return int(op == 'Eq')
        return None

    # ------------------------------------------------------------ output buffers
    def out_of(self, st, ref):
        """(obj, path, out value) behind a writer reference"""
        for _ in range(6):
            if ref[0] == 'R':
                v = self.e.read(st, ref[1], ref[2])
                if not isinstance(v, int) and v[0] == 'R': ref = v; continue
                if not isinstance(v, int) and v[0] == 'S' and self.T[v[2]]['k'] == 'ref': ref = v; continue
                return ref[1], ref[2], self.to_out(st, v)
            if ref[0] == 'S':
                r = self.e.deref(st, ref)
                ref = ('R', r[1], r[2]); continue
            break
        raise Unsupported('writer %r' % (ref,))

    def to_out(self, st, v):
        if v[0] == 'X' and v[1] == 'out': return v
        if v[0] == 'A' and len(v[3]) == 1: return self.to_out(st, v[3][0])
        if v[0] == 'A' and len(v[3]) > 1:
            for x in v[3]:
                if not isinstance(x, int) and x[0] == 'X' and x[1] == 'out': return x
        if v[0] == 'X' and v[1] == 'seq' and v[2] is None and not v[3]: return ('X', 'out', None, ())
        return ('X', 'out', self.snap(st, v), ())

    def emit(self, st, ref, items):
        o, p, out = self.out_of(st, ref)
        l = list(out[3])
        for it in self.flat(items):
            if it[0] == 'lit':
                if not it[1]: continue
                if l and l[-1][0] == 'lit': l[-1] = ('lit', l[-1][1] + it[1]); continue
            l.append(it)
        self.e.write(st, o, p, ('X', 'out', out[2], tuple(l)))

    def piece(self, st, v, kind, spec):
        """one formatted argument"""
        v = self.strip(st, v)
        if isinstance(v, int):
            return ('fmt', v, kind, spec)
        if v[0] == 'T' and kind == 'display' and not spec: return ('lit', v[1])
        return ('fmt', v, kind, spec)

    def strip(self, st, v):
        for _ in range(6):
            if isinstance(v, int): return v
            if v[0] == 'R': v = self.e.read(st, v[1], v[2]); continue
            if v[0] == '&': v = v[1]; continue
            if v[0] == 'S':
                t = self.T[v[2]]
                if t['k'] == 'ref' and self.T[t['to']]['k'] != 'str' and self.T[t['to']]['k'] != 'slice':
                    v = self.getv(st, v); continue
                if t['k'] == 'ref' and self.T[t['to']]['k'] == 'str': return self.as_str(st, v)
            break
        return self.snap(st, v)

    def render_items(self, st, items):
        """normalise items under the current cell and merge literals"""
        out = []
        for it in items:
            if it[0] == 'fmt':
                v = self.norm(st, it[1])
                s = None
                if it[2] == 'display' and not it[3]:
                    if isinstance(v, int):
                        s = chr(v) if it[1] != v and not isinstance(it[1], int) and it[1][0] == 'S' and it[1][2] == self.e.chty else str(v)
                    elif v[0] == 'T': s = v[1]
                    elif v[0] == 'C': s = chr(v[1])
                elif it[2] == 'char' and not it[3] and isinstance(v, int): s = chr(v)
                elif it[2] == 'bool' and not it[3] and isinstance(v, int): s = 'true' if v else 'false'
                it = ('lit', s) if s is not None else ('fmt', self.freeze(st, v), it[2], it[3])
            elif it[0] == 'call': it = ('call', it[1], tuple(self.freeze(st, x) for x in it[2]))
            if it[0] == 'lit':
                if not it[1]: continue
                if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + it[1]); continue
            out.append(it)
        return tuple(out)

    def last_char(self, st, ref):
        """(None for an undetermined end of text) Option<char> content of the last character"""
        o, p, out = self.out_of(st, ref)
        items = self.render_items(st, out[3])
        if items and items[-1][0] == 'lit': return ord(items[-1][1][-1])
        if not items and out[2] is None: return -1
        return self.named(st, 'last_char', [out])

    # ------------------------------------------------------------ snapshots, canonical forms
    def snap(self, st, v, depth=0):
        """copy of a value in which references are replaced by what they point to"""
        if depth > 28: return ('T', '<deep>')
        if isinstance(v, int): return v
        k = v[0]
        if k == 'R':
            if v[1] == ('*', 'self', st.x.get('selfty')) and not v[2]: return ('T', '<self>')
            try: return ('&', self.snap(st, self.e.read(st, v[1], v[2]), depth + 1))
            except Unsupported: return ('&', ('T', repr(v)))
        if k == 'A': return ('A', v[1], v[2], tuple(self.snap(st, x, depth + 1) for x in v[3]))
        if k == 'X':
            if v[1] == 'h':
                o = ('node', v[2][1])
                return ('X', 'hn', st.x.get(('nk', v[2][1])), self.snap(st, st.objs.get(o, ('T', '?')), depth + 1))
            if v[1] in ('sl', 'slice'):
                s = self.sl(st, v)
                try: q = self.sl_seq(st, s)
                except Unsupported: return ('T', repr(v))
                return ('X', 'sls', self.snap(st, q, depth + 1), self.snap(st, s[4], depth + 1), self.snap(st, s[5], depth + 1) if s[5] is not None else None)
            if v[1] == 'seq': return ('X', 'seq', v[2], tuple(self.snap(st, x, depth + 1) for x in v[3]), v[4])
            if v[1] == 'out':
                return ('X', 'out', v[2], v[3])
            return v
        if k == 'O': return ('O', v[1], tuple(self.snap(st, x, depth + 1) if not isinstance(x, (str, type(None))) else x for x in v[2]), v[3]) if v[1] != 'ovf' and v[1] != 'cast' else v
        if k == 'V': return v
        return v

    def norm(self, st, v):
        """simplify a scalar or string under the facts of the state"""
        eng = self.e
        if isinstance(v, int): return v
        k = v[0]
        if k == 'S':
            if eng.is_scalar(v[2]):
                d = st.dom.get(v[1])
                if d and iv_size(d) == 1: return d[0][0]
                if v[1] in st.bits or st.x.get(('bf', v[1])):
                    r = self.bitform(st, v)
                    if r is not None: return r
                l = eng.lin(st, v)
                if l: return self.linv(*l) if l != (0, {v[1]: 1}) else v
            elif self.T[v[2]]['k'] == 'ref' and self.T[self.T[v[2]]['to']]['k'] == 'str':
                return self.norm(st, self.as_str(st, v))
            return v
        if k == 'L':
            return self.linv(*eng.lin(st, v))
        if k == 'O':
            if v[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'ovf') and (v[3] is None or self.T[v[3]]['k'] == 'bool'):
                try: return int(eng.truth(st, v))
                except Split:
                    if self.final: raise
            elif v[1] in ('BitAnd', 'BitOr', 'BitXor', 'Not', 'Shl'):
                r = self.bitform(st, v)
                if r is not None: return r
            if v[1] in ('cast', 'wrap', 'Shl', 'Shr', 'Div', 'Rem', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Add', 'Sub'):
                lo, hi = eng.interval(st, v)
                if lo == hi: return lo
                args = tuple(self.norm(st, x) if not isinstance(x, (str, type(None))) and i < 2 and not (v[1] == 'cast' and i == 1) else x for i, x in enumerate(v[2]))
                if v[1] == 'cast':
                    if args[0] != v[2][0]:
                        return eng.cast(st, 'IntToInt', args[0], v[3], v[2][1])
                    a, b = eng.interval(st, v[2][0]); r = eng.trange(v[3])
                    if r and r[0][0] <= a and b <= r[-1][1]: return args[0]
                elif v[1] in ('wrap',):
                    a, b = eng.interval(st, args[0]); r = eng.trange(v[3])
                    if r and r[0][0] <= a and b <= r[-1][1]: return args[0]
                elif args != v[2]:
                    try: return eng.binop(st, v[1] + 'Unchecked', args[0], args[1], v[3])
                    except Exception: pass
                return ('O', v[1], args, v[3])
            return v
        if k == 'X' and v[1] == 'str': return self.norm_str(st, v)
        return v

    def norm_str(self, st, s):
        _, _, base, a, b = s
        n = a; cs = []
        while b is None or n < b:
            c = self.chsym(st, base, n)
            if not isinstance(c, int) or n - a > 200:
                # the string may be fully known although its end is not reached yet
                return s
            if c == -1: break
            cs.append(chr(c)); n += 1
        return ('T', ''.join(cs))

    def bitform(self, st, v):
        eng = self.e
        ty = v[3] if v[0] == 'O' else v[2]
        if ty is None or self.T[ty]['k'] != 'int': return None
        bits = []
        for i in range(eng.width(ty)):
            b = eng.bit(st, v, i, True)
            if b is None: return None
            bits.append(b)
        if all(isinstance(b, int) for b in bits): return eng.wrap(ty, sum(b << i for i, b in enumerate(bits)))
        b0 = next(b for b in bits if not isinstance(b, int))
        s0 = ('S', b0[1], b0[2])
        if all(b == eng.bit(st, s0, i) for i, b in enumerate(bits)): return s0
        return self.bitcat(bits)

    def bitcat(self, bits):
        bits = list(bits)
        while bits and bits[-1] == 0: bits.pop()
        return ('B', tuple(b if isinstance(b, int) else (b[1], b[3]) for b in bits))

    def linbits(self, st, v):
        """a sum of shifted, non-overlapping values in terms of bits"""
        if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 or all(k == 1 for _, k in v[2]): return None
        p = self.e.linparts(st, v)
        if not p: return None
        bits = [self.e.bit(st, v, i, True) for i in range(max(x[1] for x in p))]
        return None if None in bits else self.bitcat(bits)

    def freeze(self, st, v, depth=0):
        """canonical, comparable form of a (snapshot) value under the facts of the state"""
        eng = self.e
        if v is None or isinstance(v, int): return v
        if depth > 30: return '<deep>'
        k = v[0]
        if k in ('T', 'B', 'C'): return v
        if k == '&': return self.freeze(st, v[1], depth + 1)
        if k == 'R': return self.freeze(st, self.snap(st, v), depth + 1)
        if k == 'S':
            t = self.T[v[2]] if v[2] >= 0 else None
            if t is None or eng.is_scalar(v[2]):
                n = self.norm(st, v)
                if isinstance(n, int): return n
                if n[0] == 'L' and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] == 1: return ('S', n[2][0][0])
                return ('S', n[1]) if n[0] == 'S' else n
            if t['k'] == 'adt':
                if t['adt'] == 'enum':
                    d = eng.discr(st, v, v[2])
                    if isinstance(d, int):
                        for i, va in enumerate(t['variants']):
                            if va['discr'] == d: return self.freeze(st, eng.materialize(st, v, i), depth + 1)
                    return ('S', v[1])
                if t['path'] == 'mangled_string::MangledString': return self.freeze(st, eng.materialize(st, v), depth + 1)
                i = eng.transparent(v[2])
                if i is not None: return self.freeze(st, eng.proj_field(st, v, i, t['variants'][0]['fields'][i][1]), depth + 1)
                return ('S', v[1])
            if t['k'] == 'ref':
                to = self.T[t['to']]
                if to['k'] == 'str': return self.freeze(st, self.norm(st, v), depth + 1)
                if to['k'] == 'slice': return self.freeze(st, self.snap(st, self.sl(st, v)), depth + 1)
                if to['k'] in ('int', 'bool', 'char', 'adt') and depth < 20 and to['s'] != t['s']:
                    if to['k'] == 'adt' and self.T[t['to']]['path'] in ('cache::NodeCache', 'bumpalo::Bump'): return ('S', v[1])
                    return self.freeze(st, self.snap(st, ('R', ('*', v[1], t['to']), ())), depth + 1)
                return ('S', v[1])
            return ('S', v[1])
        if k in ('L', 'O'):
            n = self.norm(st, v)
            if isinstance(n, int): return n
            if n[0] == 'S': return ('S', n[1])
            if n[0] == 'L' and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] == 1: return ('S', n[2][0][0])
            if n[0] == 'L' and self.final:
                b = self.linbits(st, n)
                if b is not None: return b
            if n[0] == 'O' or n[0] == 'L' and any(x[:2] == 'O:' for x, _ in n[2]):
                t = eng.table(st, n, self.final)
                if t is not None: return t if isinstance(t, int) or t[0] != 'S' else ('S', t[1])
            if n[0] == 'O': return ('O', n[1], tuple(self.freeze(st, x, depth + 1) if not isinstance(x, (str, type(None))) else x for x in n[2][:2] if n[1] != 'cast') or (self.freeze(st, n[2][0], depth + 1),), self.T[n[3]]['s'] if n[3] is not None else None)
            return n
        if k == 'A':
            t = self.T[v[1]]
            if t['k'] == 'adt':
                if t['adt'] == 'enum':
                    if t['path'] == 'Error' or t['path'].endswith('io::Error'): return ('A', 'Error')
                    return ('A', t['variants'][v[2]]['name'], tuple(self.freeze(st, x, depth + 1) for x in v[3]))
                i = eng.transparent(v[1])
                if i is not None: return self.freeze(st, v[3][i], depth + 1)
                fs = tuple(self.freeze(st, x, depth + 1) for x in v[3])
                if t['path'] != 'mangled_string::MangledString':
                    base = None
                    for (n, fty), f in zip(t['variants'][0]['fields'], fs):
                        if eng.is_zst(fty) or n in t['variants'][0].get('extra', ()): continue
                        if isinstance(f, tuple) and f[0] == 'S' and f[1].endswith('.' + n):
                            b = f[1][:-len(n) - 1]
                            if base is None: base = b
                            if b == base: continue
                        base = False; break
                    if base: return ('S', base)
                if not t.get('local', True): return ('A', t['s'].split('<')[0], fs)
                va = t['variants'][0]
                return ('A', t['path'], tuple((n, f) for (n, _), f in zip(va['fields'], fs) if n not in va.get('extra', ())))
            if t['k'] in ('array', 'slice'): return ('list', tuple(self.freeze(st, x, depth + 1) for x in v[3]))
            return ('A', t['k'], tuple(self.freeze(st, x, depth + 1) for x in v[3]))
        if k == 'X':
            if v[1] == 'str':
                n = self.norm(st, v)
                if n[0] == 'T': return n
                return ('str', n[2], n[3], n[4])
            if v[1] == 'h':
                return self.freeze(st, self.snap(st, v), depth + 1)
            if v[1] == 'hn':
                return ('hn', self.kinds[v[2]] if v[2] is not None else None, self.freeze(st, v[3], depth + 1))
            if v[1] == 'seq':
                its = tuple(self.freeze(st, x, depth + 1) for x in v[3])
                if v[2] is None: return ('list', its)
                return ('seq', v[2], its) if its else ('S', v[2])
            if v[1] == 'sls':
                q = v[2]; lo = self.freeze(st, v[3]); hi = self.freeze(st, v[4])
                if q[2] is None and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
                    return ('list', tuple(self.freeze(st, x, depth + 1) for x in q[3][lo:hi]))
                if hi is not None:
                    n = self.freeze(st, self.seq_len(st, q))
                    if n == hi: hi = None
                if lo == 0 and hi is None: return self.freeze(st, q, depth + 1)
                return ('sls', self.freeze(st, q, depth + 1), lo, hi)
            if v[1] in ('sl', 'slice'): return self.freeze(st, self.snap(st, v), depth + 1)
            if v[1] == 'out':
                return ('out', self.freeze(st, v[2], depth + 1), self.render_items(st, v[3]))
            return tuple(self.freeze(st, x, depth + 1) if isinstance(x, tuple) and x and x[0] in ('S', 'L', 'O', 'A', 'X', 'T', 'R', 'V') else x for x in v)
        if k == 'V': return ('V', v[1])
        if k == 'F': return ('F', self.p.fns[v[1]]['nname'])
        return v

    # ------------------------------------------------------------ uninterpreted calls
    def h_havoc(self, eng, st, f, vals, name):
        try: nm = self.named(st, name, vals, '?')
        except (Unsupported, KeyError): nm = None
        ptys = f.get('ptys') if f else None
        if f and f['body']: ptys = f['body']['locals'][1:1 + f['body']['argc']]
        for i, v in enumerate(vals):
            if self.lends(v): raise Unsupported('unknown operation %s changes something' % name)
            if not isinstance(v, int) and v[0] == 'X' and v[1] in ('sl', 'slice') and v[2][:1] != ('tmp',):
                t = self.T[ptys[i]] if ptys and i < len(ptys) else None
                if t is None or t['k'] in ('ref', 'ptr') and t.get('mut'): raise Unsupported('unknown operation %s changes something' % name)
            if isinstance(v, int) or v[0] != 'R': continue
            to = None
            if ptys and i < len(ptys):
                t = self.T[ptys[i]]
                if t['k'] == 'ref' and not t['mut']: continue
                if t['k'] in ('ref', 'ptr'): to = t['to']
            if to is None or self.T[to]['k'] in ('slice', 'dyn', 'str', 'param'): raise Unsupported('unknown operation %s changes something' % name)
            n = nm or st.fresh('?' + name.split('::')[-1])
            eng.write(st, v[1], v[2], eng.sym(st, '%s.arg%d' % (n, i), to))
        return nm

    def lends(self, v, depth=0):
        """an aggregate with a mutable reference in it (a closure that changes what it captured)"""
        if isinstance(v, int) or v[0] != 'A' or depth > 6: return False
        t = self.T[v[1]]
        fts = t['fields'] if t['k'] in ('closure', 'tuple') else [x for _, x in t['variants'][v[2]]['fields']] if t['k'] == 'adt' else ()
        for f, x in zip(fts, v[3]):
            if isinstance(x, int): continue
            if x[0] == 'R' and self.T[f]['k'] in ('ref', 'ptr') and self.T[f].get('mut'): return True
            if self.lends(x, depth + 1): return True
        return False

    def named(self, st, fn, args, pre=''):
        """name of the result of an uninterpreted, deterministic operation on these arguments"""
        args = tuple(self.snap(st, a) for a in args)
        fz = tuple(self.freeze(st, a) for a in args)
        calls = st.x.get('calls', ())
        for f, nm, a in calls:
            if f == fn and len(a) == len(args) and tuple(self.freeze(st, x) for x in a) == fz:
                if self.mode == 'ref': st.x['used'] = st.x.get('used', frozenset()) | {nm}
                return nm
        if 'grace' in st.x and self.mode == 'code': self.e.graceful(st)
        n = sum(1 for f, nm, a in calls if short(f) == short(fn)) + 1
        nm = '%s%s%s#%s%d' % (pre, '', short(fn), 'r' if self.mode == 'ref' else '', n)
        if self.mode == 'ref':
            # an operation the code under analysis performs as well keeps its name
            have = {nm for _, nm, _ in calls}
            while nm in have: n += 1; nm = '%s%s#r%d' % (pre, short(fn), n)
        st.x['calls'] = calls + ((fn, nm, args),)
        return nm

    def call_closure(self, st, cl, args):
        """value of a closure or function item applied to arguments"""
        e = self.e
        if cl[0] == 'F':
            f = self.p.fns[cl[1]]
            h = e.cuts.get(f['id']) or self.lookup(e, f)
            if h is not None:
                r = h(e, st, f, args, f['ret'] if f.get('ret') is not None else f['body']['locals'][0])
                if r is not NotImplemented and not isinstance(r, list): return r
            return e.nested(st, f['id'], args)
        if cl[0] == 'A' and self.T[cl[1]]['k'] == 'closure':
            fid = self.p.fn_of_type(cl[1], self.mode)
            if fid is None: raise Unsupported('closure body')
            return e.nested(st, fid, [cl] + args)
        raise Unsupported('call of %r' % (cl,))

    def lookup(self, eng, f):
        h = self.cache.get(f['id'], 0)
        if h == 0:
            h = None
            for pat, fn, low_ok in self.table:
                if self.low and not low_ok: continue
                if pat.search(f['path']): h = fn; break
            self.cache[f['id']] = h
        return h

    def reg(self, pat, fn, low=True): self.table.append((re.compile(pat), fn, low))

    def _reg(self):
        import stdmodels
        stdmodels.register(self)
