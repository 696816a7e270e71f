"""Summaries (specifications) of library operations, registered by definition path."""
import re
from engine import Split, Infeasible, Unsupported, iv_inter, iv_minus, iv_norm, iv_size, CHAR_DOM, S
from models import CHARE, ASCII


def register(m):
    e = m.e; T = m.T; reg = m.reg

    def opt(destty, v): return e.none(destty) if v is None else e.some(destty, v)

    def pay(destty): return T[destty]['variants'][1]['fields'][0][1]

    def boolv(b): return 1 if b else 0

    # ------------------------------------------------------------ no-ops and panics
    def unreachable(eng, st, f, v, d): e.demand(st, False, 'unreachable_unchecked', f['name'])
    reg(r'hint::unreachable_unchecked(::precondition_check)?$|intrinsics::unreachable$', unreachable)

    def u32_unchecked(eng, st, f, v, d):
        if not (e.compare(st, 'Lt', v[0], 0xD800) or e.compare(st, 'Ge', v[0], 0xE000) and e.compare(st, 'Lt', v[0], 0x110000)):
            e.demand(st, False, 'from_u32_unchecked', f['name'])
        e.demand(st, True, 'from_u32_unchecked', f['name'])
        return ('A', d, 0, ())
    reg(r'char::convert::from_u32_unchecked::precondition_check$', u32_unchecked)

    def arith_unchecked(eng, st, f, v, d):
        fr = st.frames
        local = any(e.p.fns[x.fn]['local'] for x in fr[-2:])
        if local and len(v) == 2:
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[re.search(r'unchecked_(\w+)::', f['path']).group(1)]
            ty = e.p.fns[fr[-1].fn]['body']['locals'][0] if not e.p.fns[fr[-1].fn]['local'] else None
            if ty is not None and e.is_scalar(ty):
                bad = e.truth(st, ('O', 'ovf', (op, v[0], v[1], ty), e.ubool))
                e.demand(st, not bad, 'unchecked_arithmetic', f['name'])
        return ('A', d, 0, ())
    reg(r'core::num::<impl \w+>::unchecked_(add|sub|mul)::precondition_check$', arith_unchecked)
    reg(r'precondition_check$|intrinsics::cold_path$|intrinsics::assume$|hint::assert_unchecked$|hint::black_box$',
        lambda eng, st, f, v, d: ('A', d, 0, ()))
    reg(r'^core::panicking::|^std::option::expect_failed|unwrap_failed$|slice_index_fail$|slice_error_fail|panic_fmt$|::expect_failed$|panic_nounwind',
        lambda eng, st, f, v, d: NotImplemented)

    # ------------------------------------------------------------ strings
    def cs(st, v): return m.as_str(st, v)

    def str_len(eng, st, f, v, d): return m.nbytes(st, cs(st, v[0]))
    reg(r'str::<impl str>::len$', str_len)

    def str_is_empty(eng, st, f, v, d):
        s = cs(st, v[0])
        if s[:2] == ('X', 'out'): return e.binop(st, 'Eq', m.nbytes(st, s), 0, e.uty)
        return boolv(m.at_end(st, s))
    reg(r'str::<impl str>::is_empty$', str_is_empty)
    reg(r'str::<impl str>::chars$', lambda eng, st, f, v, d: ('X', 'ch', cs(st, v[0])))
    reg(r'str::<impl str>::char_indices$', lambda eng, st, f, v, d: ('X', 'ci', cs(st, v[0]), 0))
    reg(r'str::<impl str>::(as_bytes|as_ptr|to_owned)$', lambda eng, st, f, v, d: cs(st, v[0]) if 'bytes' in f['path'] else NotImplemented)

    def it_place(st, r):
        """location and value of an iterator behind a reference"""
        for _ in range(4):
            val = e.read(st, r[1], r[2])
            if not isinstance(val, int) and val[0] == 'R': r = val; continue
            return r, val
        raise Unsupported('iterator')

    def width_lin(st, s):
        """byte width of the first character of s (known to exist)"""
        if s[0] == 'T': return len(s[1][0].encode())
        c, dd = m.width(st, s[2], s[3])
        return m.linv(*e.lin_norm(st, c, dd))

    def chars_next(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'ch': raise Unsupported('chars %r' % (it,))
        s = it[2]
        c = m.has(st, s, 0)
        if c is None: return e.none(d)
        e.write(st, r[1], r[2], ('X', 'ch', m.adv(s, 1)))
        return e.some(d, c)
    reg(r'<std::str::Chars<.*> as std::iter::Iterator>::next$', chars_next)

    def ci_next(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'ci': raise Unsupported('char_indices %r' % (it,))
        s, off = it[2], it[3]
        c = m.has(st, s, 0)
        if c is None: return e.none(d)
        w = width_lin(st, s)
        e.write(st, r[1], r[2], ('X', 'ci', m.adv(s, 1), e.binop(st, 'AddUnchecked', off, w, e.uty)))
        return e.some(d, ('A', pay(d), 0, (off, c)))
    reg(r'<std::str::CharIndices<.*> as std::iter::Iterator>::next$', ci_next)

    def last_of(st, s):
        if s[0] == 'T': return ord(s[1][-1])
        if s[4] is not None: return m.charat(st, s, s[4] - s[3] - 1)
        known = st.x.get(('lastof', s[2]))
        if known is not None: return known
        # the last character of a string whose remaining characters are being enumerated
        for k in range(0, 12):
            nm = '%s[%d]' % (s[2], s[3] + k)
            dd = st.dom.get(nm)
            if dd == ((-1, -1),) and k: return m.charat(st, s, k - 1)
        nm = m.named(st, 'lastch', [s])
        st.dom.setdefault(nm, CHAR_DOM); st.x[('ty', nm)] = e.chty
        return e.sym(st, nm, e.chty)

    m.last_of = last_of

    def chars_next_back(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'ch': raise Unsupported('chars %r' % (it,))
        s = it[2]
        if s[0] == 'X' and s[1] == 'out':
            return out_last(st, s, d)
        if m.at_end(st, s): return e.none(d)
        c = last_of(st, s)
        rest = ('T', s[1][:-1]) if s[0] == 'T' else ('X', 'str', s[2], s[3], s[4] - 1) if s[4] is not None else None
        if rest is not None: e.write(st, r[1], r[2], ('X', 'ch', rest))
        return e.some(d, c)
    reg(r'<std::str::Chars<.*> as std::iter::DoubleEndedIterator>::next_back$', chars_next_back)

    reg(r'<std::str::Chars<.*> as std::iter::Iterator>::count$', lambda eng, st, f, v, d: m.count(st, v[0][2]))
    reg(r'<std::str::Chars<.*> as std::iter::Iterator>::last$',
        lambda eng, st, f, v, d: e.none(d) if m.at_end(st, v[0][2]) else e.some(d, last_of(st, v[0][2])))
    reg(r'std::str::(Chars|CharIndices)::<.*>::as_str$', lambda eng, st, f, v, d: it_place(st, v[0])[1][2])

    def prefix(st, s, pat):
        """s starts with the literal pat (splits character by character)"""
        for k, ch in enumerate(pat):
            c = m.charat(st, s, k)
            if isinstance(c, int):
                if c != ord(ch): return False
                continue
            if not e.compare(st, 'Eq', c, ord(ch)): return False
        return True

    def pat_of(st, v):
        if isinstance(v, int): return v
        if v[0] == 'S' and e.is_scalar(v[2]): return v
        if v[0] == 'A' and T[v[1]]['k'] == 'array': return list(v[3])
        if v[0] == 'R' and not isinstance(e.read(st, v[1], v[2]), int):
            w = e.read(st, v[1], v[2])
            if w[0] == 'A' and T[w[1]]['k'] == 'array': return list(w[3])
        if v[0] in ('F',) or v[0] == 'A' and T[v[1]]['k'] == 'closure': return None
        return m.norm(st, cs(st, v))

    def starts_with(eng, st, f, v, d):
        s = cs(st, v[0]); p = pat_of(st, v[1])
        if p is None: return NotImplemented
        if isinstance(p, list):
            c = m.charat(st, s, 0)
            for q in p:
                if e.compare(st, 'Eq', c, q): return 1
            return 0
        if isinstance(p, int) or p[0] == 'S': return boolv(e.compare(st, 'Eq', m.charat(st, s, 0), p))
        if p[0] == 'T': return boolv(prefix(st, s, p[1]))
        return NotImplemented
    reg(r'str::<impl str>::starts_with$', starts_with)

    def strip_prefix(eng, st, f, v, d):
        s = cs(st, v[0]); p = pat_of(st, v[1])
        if p is None: return NotImplemented
        if isinstance(p, int) or isinstance(p, tuple) and p[0] == 'S':
            return e.some(d, m.adv(s, 1)) if e.compare(st, 'Eq', m.charat(st, s, 0), p) else e.none(d)
        if isinstance(p, list):
            c = m.charat(st, s, 0)
            for q in p:
                if e.compare(st, 'Eq', c, q): return e.some(d, m.adv(s, 1))
            return e.none(d)
        if p[0] == 'T': return e.some(d, m.adv(s, len(p[1]))) if prefix(st, s, p[1]) else e.none(d)
        return NotImplemented
    reg(r'str::<impl str>::strip_prefix$', strip_prefix)

    def str_eq(eng, st, f, v, d):
        a, b = m.norm(st, cs(st, v[0])), m.norm(st, cs(st, v[1]))
        neg = f['path'].endswith('::ne')
        if a[0] != 'T' and b[0] == 'T': a, b = b, a
        if a[0] == 'T' and b[0] == 'T': r = a == b
        elif a[0] == 'T' and b[1] == 'str': r = prefix(st, b, a[1]) and m.at_end(st, b, len(a[1]))
        elif a == b: r = True
        else:
            nm = m.named(st, 'streq', [a, b])
            st.dom.setdefault(nm, ((0, 1),))
            r = e.truth(st, e.sym(st, nm, e.ubool))
        return boolv(r != neg)
    reg(r'str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$', str_eq)

    def str_cmp(eng, st, f, v, d):
        a, b = m.norm(st, cs(st, v[0])), m.norm(st, cs(st, v[1]))
        if a[0] == 'T' and b[0] == 'T': return ('A', d, (a[1].encode() > b[1].encode()) - (a[1].encode() < b[1].encode()) + 1, ())
        if str_eq(eng, st, {'path': 'eq'}, v, d): return ('A', d, 1, ())
        nm = m.named(st, 'strlt', [a, b])
        st.dom.setdefault(nm, ((0, 1),)); st.x[('ty', nm)] = e.ubool
        return ('A', d, 0 if e.truth(st, e.sym(st, nm, e.ubool)) else 2, ())
    reg(r'str::traits::<impl std::cmp::Ord for str>::cmp$', str_cmp, False)

    def split_at_checked(eng, st, f, v, d):
        s = cs(st, v[0]); off = v[1]
        if not m.cuttable(st, s, off): return e.none(d)
        a, b = m.split_str(st, s, off)
        return e.some(d, ('A', pay(d), 0, (a, b)))
    reg(r'str::<impl str>::split_at_checked$', split_at_checked)

    def str_cut(st, s, off):
        lf, loc = e.site(st)
        k = (lf['path'], 'str index', loc)
        ob = e.obligations.setdefault(k, ['proven', '', 0]); ob[2] += 1
        if m.cuttable(st, s, off): return
        ob[0] = 'refuted' if st.taint is None else 'unknown'
        st.outcome = ('panic', k, st.taint); raise Infeasible()

    def str_index(eng, st, f, v, d):
        s = cs(st, v[0]); r = v[1]
        n = f['name']
        r = e.materialize(st, r) if r[0] == 'S' else r
        if 'RangeFrom' in n: lo, hi = r[3][0], None
        elif 'RangeToInclusive' in n: lo, hi = 0, e.binop(st, 'AddUnchecked', r[3][0], 1, e.uty)
        elif 'RangeTo<' in n: lo, hi = 0, r[3][0]
        elif 'RangeFull' in n: return s
        elif 'Range<' in n: lo, hi = r[3][0], r[3][1]
        else: raise Unsupported('str index ' + n)
        str_cut(st, s, lo if hi is None or not isinstance(lo, int) or lo else hi)
        if hi is not None:
            if isinstance(lo, int) and lo == 0:
                x = m.split_str(st, s, hi)
                if x is None: raise Unsupported('str index')
                return x[0]
            x = m.split_str(st, s, lo)
            if x is None: raise Unsupported('str index')
            str_cut(st, x[1], e.binop(st, 'SubUnchecked', hi, lo, e.uty))
            y = m.split_str(st, x[1], e.binop(st, 'SubUnchecked', hi, lo, e.uty))
            if y is None: raise Unsupported('str index')
            return y[0]
        x = m.split_str(st, s, lo)
        if x is None: raise Unsupported('str index')
        return x[1]
    reg(r'str::traits::<impl std::ops::Index<I> for str>::index$', str_index)

    def str_get(eng, st, f, v, d):
        # get(range): None unless the range lies on character boundaries
        s = cs(st, v[0]); r = v[1]; n = f['name']
        if r[0] == 'S': r = e.materialize(st, r)
        if 'RangeFull' in n: return e.some(d, s)
        if 'RangeToInclusive<' in n: off = e.binop(st, 'AddUnchecked', r[3][0], 1, e.uty)
        elif 'RangeFrom<' in n or 'RangeTo<' in n: off = r[3][0]
        else: raise Unsupported('str get')
        if not m.cuttable(st, s, off): return e.none(d)
        return e.some(d, m.split_str(st, s, off)[1 if 'RangeFrom<' in n else 0])
    reg(r'str::<impl str>::get$', str_get)

    def str_find(eng, st, f, v, d):
        s = cs(st, v[0]); p = pat_of(st, v[1])
        if p is None or not isinstance(p, int): return NotImplemented
        if m.low: return find_round(eng, st, m.norm(st, s), p, d)
        return find_char(st, s, p, d)

    def find_round(eng, st, s, ch, d):
        # a search among the characters themselves: as a loop over them
        for k in range(eng.unroll + 2):
            c = m.has(st, s, k)
            if c is None: return e.none(d)
            if e.compare(st, 'Eq', c, ch):
                return e.some(d, len(s[1][:k].encode()) if s[0] == 'T' else m.nbytes(st, ('X', 'str', s[2], s[3], s[3] + k)))
        st.outcome = ('loop', 'str::find')
        raise Infeasible()
    reg(r'str::<impl str>::find$', str_find)

    def find_char(st, s, ch, d):
        s = m.norm(st, s)
        if s[0] == 'T':
            k = s[1].find(chr(ch))
            return e.none(d) if k < 0 else e.some(d, len(s[1][:k].encode()))
        nm = m.named(st, 'find', [s, ch])
        dn = 'discr(%s)' % nm
        if isinstance(ch, int):
            fz = m.freeze(st, s)
            st.x[('find', nm + '.Some')] = (fz, ch)
            st.x.setdefault(('ty', nm + '.Some'), e.uty)
            l = e.lin(st, m.nbytes(st, s))
            if l and l[1]:
                dd = dict(l[1]); dd[nm + '.Some'] = dd.get(nm + '.Some', 0) - 1
                e.add_rel(st, dd, 1 - l[0], 10**30)
        return e.sym(st, nm, d)
    m.find_char = find_char

    WS = iv_norm([(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
                  (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])

    def member(st, c, ivs):
        """is the character among these? (splits)"""
        if isinstance(c, int): return any(a <= c <= b for a, b in ivs)
        if c[0] != 'S': return None
        dd = st.dom.get(c[1])
        if dd is None: dd = e.dom(st, c[1], c[2])
        yes, no = iv_inter(dd, ivs), iv_minus(dd, ivs)
        if not yes: return False
        if not no: return True
        e.split_dom(c[1], c[2], [yes, no])

    def strip_set(st, f, v):
        if f['path'].split('::')[-1] in ('trim', 'trim_start', 'trim_end'): return WS
        p = pat_of(st, v[1])
        if isinstance(p, int): return ((p, p),)
        if isinstance(p, list) and all(isinstance(x, int) for x in p): return iv_norm([(x, x) for x in p])
        return None

    def trim(eng, st, f, v, d):
        s = m.norm(st, cs(st, v[0])); ivs = strip_set(st, f, v)
        if f['path'].endswith('trim_start_matches') and ivs is None:
            p = pat_of(st, v[1])
            if isinstance(p, tuple) and p[0] == 'T' and p[1] and (s[0] == 'T' or s[:2] == ('X', 'str')):
                if s[0] == 'T':
                    t = s[1]
                    while t.startswith(p[1]): t = t[len(p[1]):]
                    return ('T', t)
                for k in range(eng.unroll + 2):
                    if not prefix(st, s, p[1]): return s
                    s = m.adv(s, len(p[1]))
                st.outcome = ('loop', 'str::trim'); raise Infeasible()
        if ivs is None: return NotImplemented
        kind = f['path'].split('::')[-1]
        inn = lambda ch: any(a <= ord(ch) <= b for a, b in ivs)
        if s[0] == 'T':
            t = s[1]; i, j = 0, len(t)
            if 'end' not in kind:
                while i < j and inn(t[i]): i += 1
            if 'start' not in kind:
                while i < j and inn(t[j - 1]): j -= 1
            return ('T', t[i:j])
        if s[0] != 'X' or s[1] != 'str': return NotImplemented
        if 'end' not in kind:
            for k in range(eng.unroll + 2):
                c = m.has(st, s, 0)
                if c is None: return ('T', '')
                q = member(st, c, ivs)
                if q is None: return NotImplemented
                if not q: break
                s = m.adv(s, 1)
            else:
                st.outcome = ('loop', 'str::' + kind); raise Infeasible()
        if 'start' not in kind:
            if m.at_end(st, s): return s
            if s[4] is not None:
                for k in range(eng.unroll + 2):
                    q = member(st, last_of(st, s), ivs)
                    if q is None: return NotImplemented
                    if not q: return s
                    if s[4] - s[3] <= 1: return ('T', '')
                    s = ('X', 'str', s[2], s[3], s[4] - 1)
                st.outcome = ('loop', 'str::' + kind); raise Infeasible()
            q = member(st, last_of(st, s), ivs)
            if q is None: return NotImplemented
            if not q: return s
            return shorter(st, s, '%s %s' % (kind, ivs))
        return s

    def shorter(st, s, why, drop=1):
        """a text that lacks the last character(s) of s"""
        nm = m.named(st, 'front', [s, ('T', why)])
        r = ('X', 'str', nm + '.str', 0, None)
        for ln in (m.nbytes, m.count):
            l = e.lin(st, ln(st, s)); k = e.lin(st, ln(st, r))
            if l is None or k is None: continue
            dd = dict(l[1])
            for n_, q in k[1].items(): dd[n_] = dd.get(n_, 0) - q
            dd = {x: y for x, y in dd.items() if y}
            if dd: e.add_rel(st, dd, k[0] - l[0] + drop, 10**30)
        return r
    reg(r'str::<impl str>::trim(_start|_end)?(_matches)?$', trim, False)

    def ends_with(eng, st, f, v, d):
        s = m.norm(st, cs(st, v[0])); p = pat_of(st, v[1]); strip = f['path'].endswith('strip_suffix')
        if isinstance(p, tuple) and p[0] == 'T' and len(p[1]) == 1: p = ord(p[1])
        if not isinstance(p, int) and not (isinstance(p, tuple) and p[0] == 'T'): return NotImplemented
        pt = chr(p) if isinstance(p, int) else p[1]
        if s[0] == 'T':
            y = s[1].endswith(pt)
            if not strip: return boolv(y)
            return e.some(d, ('T', s[1][:len(s[1]) - len(pt)])) if y else e.none(d)
        if s[0] != 'X' or s[1] != 'str': return NotImplemented
        if not pt: return e.some(d, s) if strip else 1
        if m.at_end(st, s): return e.none(d) if strip else 0
        if not e.compare(st, 'Eq', last_of(st, s), ord(pt[-1])): return e.none(d) if strip else 0
        if len(pt) > 1:
            bn = m.named(st, 'ends_with', [s, ('T', pt)])
            st.dom.setdefault(bn, ((0, 1),)); st.x[('ty', bn)] = e.ubool
            if not e.truth(st, e.sym(st, bn, e.ubool)): return e.none(d) if strip else 0
            for ln in (m.nbytes,):
                l = e.lin(st, ln(st, s))
                if l and l[1]: e.add_rel(st, dict(l[1]), len(pt.encode()) - l[0], 10**30)
        if not strip: return 1
        if s[4] is not None and len(pt) == 1: return e.some(d, ('X', 'str', s[2], s[3], s[4] - 1))
        if len(pt) == 1 and ord(pt) < 128:
            cut = m.split_str(st, s, e.binop(st, 'SubUnchecked', m.nbytes(st, s), 1, e.uty))
            if cut is not None: return e.some(d, cut[0])
        return e.some(d, shorter(st, s, 'without ' + pt, len(pt)))
    reg(r'str::<impl str>::(ends_with|strip_suffix)$', ends_with, False)

    optusize = next((i for i, t in enumerate(T) if t['s'] == 'std::option::Option<usize>'), None)

    def found(st, s, ch):
        """the byte offset of the first such character, or None (splits)"""
        o = find_char(st, s, ch, optusize)
        dv = e.discr(st, o, optusize)
        if e.compare(st, 'Eq', dv, 0): return None
        o = e.materialize(st, o, 1) if o[0] == 'S' else o
        return o[3][0]

    def one_char(p):
        if isinstance(p, tuple) and p[0] == 'T' and len(p[1]) == 1: return ord(p[1])
        return p

    def str_split_once(eng, st, f, v, d):
        s = m.norm(st, cs(st, v[0])); p = one_char(pat_of(st, v[1]))
        if not isinstance(p, int) or optusize is None or s[0] not in ('T', 'X'): return NotImplemented
        if s[0] == 'T':
            h, q, t = s[1].partition(chr(p))
            return e.some(d, ('A', pay(d), 0, (('T', h), ('T', t)))) if q else e.none(d)
        off = found(st, s, p)
        if off is None: return e.none(d)
        h, t = m.split_str(st, s, off)
        if m.has(st, t, 0) is None: raise Infeasible()
        return e.some(d, ('A', pay(d), 0, (h, m.adv(t, 1))))
    reg(r'str::<impl str>::split_once$', str_split_once, False)

    def str_contains(eng, st, f, v, d):
        s = m.norm(st, cs(st, v[0])); p = pat_of(st, v[1])
        if isinstance(p, tuple) and p[0] == 'T' and s[0] == 'T': return boolv(p[1] in s[1])
        if isinstance(p, tuple) and p[0] == 'T' and len(p[1]) == 1: p = ord(p[1])
        if isinstance(p, int):
            if optusize is None: return NotImplemented
            return boolv(found(st, s, p) is not None)
        if not isinstance(p, tuple) or p[0] != 'T': return NotImplemented
        if m.at_end(st, s): return boolv(p[1] == '')
        bn = m.named(st, 'contains', [s, p])
        st.dom.setdefault(bn, ((0, 1),)); st.x[('ty', bn)] = e.ubool
        return e.sym(st, bn, e.ubool)
    reg(r'str::<impl str>::contains$', str_contains, False)

    def is_ascii(eng, st, f, v, d):
        s = m.norm(st, cs(st, v[0]))
        if s[0] == 'T': return boolv(s[1].isascii())
        if m.at_end(st, s): return 1
        bn = m.named(st, 'is_ascii', [s])
        st.dom.setdefault(bn, ((0, 1),)); st.x[('ty', bn)] = e.ubool
        return e.sym(st, bn, e.ubool)
    reg(r'str::<impl str>::is_ascii$', is_ascii, False)

    def recase(eng, st, f, v, d):
        """a text with letters replaced: as long as the original, equal to it only by accident"""
        s = m.norm(st, cs(st, v[0])); up = 'upper' in f['path']
        if s[0] == 'T': return ('T', ''.join(c.upper() if up else c.lower() for c in s[1])) if s[1].isascii() else NotImplemented
        return ('X', 'str', m.named(st, f['path'].split('::')[-1], [s]) + '.str', 0, None)
    reg(r'str::<impl str>::to_ascii_(lower|upper)case$', recase, False)

    def eq_nocase(eng, st, f, v, d):
        a, b = m.norm(st, cs(st, v[0])), m.norm(st, cs(st, v[1]))
        if a[0] != 'T' and b[0] == 'T': a, b = b, a
        if a[0] != 'T':
            if a == b: return 1
            nm = m.named(st, 'streq', [a, b])
            st.dom.setdefault(nm, ((0, 1),))
            if e.truth(st, e.sym(st, nm, e.ubool)): return 1
            nm = m.named(st, 'streq-nocase', [a, b])
            st.dom.setdefault(nm, ((0, 1),)); st.x[('ty', nm)] = e.ubool
            return e.sym(st, nm, e.ubool)
        for k, ch in enumerate(a[1]):
            c = m.has(st, b, k)
            if c is None: return 0
            q = member(st, c, iv_norm([(ord(x), ord(x)) for x in {ch, ch.upper(), ch.lower()} if x.isascii() or x == ch]))
            if q is None: return NotImplemented
            if not q: return 0
        return boolv(m.has(st, b, len(a[1])) is None)
    reg(r'str::<impl str>::eq_ignore_ascii_case$', eq_nocase, False)

    def split_new(eng, st, f, v, d):
        p = one_char(pat_of(st, v[1]))
        return ('X', 'spl', m.norm(st, cs(st, v[0])), p) if isinstance(p, int) and optusize is not None else NotImplemented
    reg(r'str::<impl str>::split$', split_new, False)
    def splitn_new(eng, st, f, v, d):
        p = one_char(pat_of(st, v[2]))
        if not isinstance(v[1], int) or not isinstance(p, int) or optusize is None: return NotImplemented
        return ('X', 'spl', m.norm(st, cs(st, v[0])) if v[1] else None, p, v[1])
    reg(r'str::<impl str>::splitn$', splitn_new, False)

    def split_next(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'spl': return NotImplemented
        s, ch = it[2], it[3]
        if s is None: return e.none(d)
        left = ()
        if len(it) > 4:
            if it[4] == 1:
                e.write(st, r[1], r[2], ('X', 'spl', None, ch, 0)); return e.some(d, s)
            left = (it[4] - 1,)
        if s[0] == 'T':
            h, q, t = s[1].partition(chr(ch))
            e.write(st, r[1], r[2], ('X', 'spl', ('T', t) if q else None, ch) + left)
            return e.some(d, ('T', h))
        off = found(st, s, ch)
        if off is None:
            e.write(st, r[1], r[2], ('X', 'spl', None, ch) + left); return e.some(d, s)
        h, t = m.split_str(st, s, off)
        if m.has(st, t, 0) is None: raise Infeasible()
        e.write(st, r[1], r[2], ('X', 'spl', m.adv(t, 1), ch) + left)
        return e.some(d, h)
    reg(r"<std::str::Split(N)?<'.*, char> as std::iter::Iterator>::next$|<std::str::SplitN<'a, P> as std::iter::Iterator>::next$|<std::str::Split<'a, P> as std::iter::Iterator>::next$", split_next, False)

    def string_text(eng, st, f, v, d):
        x = v[0]
        for _ in range(4):
            if isinstance(x, int) or x[0] != 'R': break
            x = e.read(st, x[1], x[2])
        if isinstance(x, int): return NotImplemented
        if x[0] == 'T' or x[0] == 'X' and x[1] in ('str', 'out'): return x
        if x[0] == 'X' and x[1] == 'seq' and x[2] is None and not x[3]: return ('T', '')
        return NotImplemented
    reg(r'<std::string::String as std::ops::Deref>::deref$|std::string::String::as_str$|<std::string::String as std::convert::AsRef<str>>::as_ref$|<std::string::String as std::borrow::Borrow<str>>::borrow$', string_text, False)

    def own_text(eng, st, f, v, d):
        if T[d].get('path') != 'std::string::String': return NotImplemented
        try: return m.norm(st, cs(st, v[0]))
        except Unsupported: return NotImplemented
    reg(r'<std::string::String as std::convert::From<&(mut )?str>>::from$|<str as std::string::ToString>::to_string$|<(str|T) as std::borrow::ToOwned>::to_owned$|str::<impl str>::(to_string|to_owned)$|<std::string::String as std::str::FromStr>::from_str$', own_text, False)

    # the caller's buffer, where a rule asks what becomes of it
    OWN = m.OWN = ('T', '<the buffer of the caller>')
    def own(x): return not isinstance(x, int) and x[0] == 'X' and x[1] == 'out' and x[2] == OWN

    def capacity(eng, st, f, v, d):
        r = v[0]
        if r[0] != 'R': return NotImplemented
        nm = m.named(st, 'capacity', [m.snap(st, e.read(st, r[1], r[2]))])
        st.dom.setdefault(nm, ((0, 2 ** 63 - 1),)); st.x[('ty', nm)] = e.uty
        return e.sym(st, nm, e.uty)
    reg(r'std::string::String::capacity$', capacity, False)
    def string_len(eng, st, f, v, d):
        if own(vec_place(st, v[0])[1]): return NotImplemented
        x = string_text(eng, st, f, v, d)
        if x is NotImplemented: return x
        return str_len(eng, st, f, [x], d) if f['path'].endswith('len') else str_is_empty(eng, st, f, [x], d)
    reg(r'std::string::String::(len|is_empty)$', string_len, False)
    def string_cut(eng, st, f, v, d):
        r, x = vec_place(st, v[0])
        if own(x): return NotImplemented
        x = string_text(eng, st, f, v, d)
        if x is NotImplemented: return x
        pop = f['path'].endswith('pop')
        if x[0] == 'X' and x[1] == 'out' and x[2] is None and x[3] and x[3][-1][0] == 'lit' and pop:
            w = x[3][-1][1]
            e.write(st, r[1], r[2], text_of(st, list(x[3][:-1]) + [('lit', w[:-1])])); return e.some(d, ord(w[-1]))
        x = m.norm(st, x)
        if x[0] == 'T' and pop:
            if not x[1]: return e.none(d)
            e.write(st, r[1], r[2], ('T', x[1][:-1])); return e.some(d, ord(x[1][-1]))
        if x[0] == 'T' and isinstance(v[1], int) and x[1].isascii():
            e.write(st, r[1], r[2], ('T', x[1][:v[1]])); return ('A', d, 0, ())
        if x[0] == 'X' and x[1] == 'str' and pop:
            if m.at_end(st, x): return e.none(d)
            c = last_of(st, x)
            e.write(st, r[1], r[2], ('X', 'str', x[2], x[3], x[4] - 1) if x[4] is not None else shorter(st, x, 'pop'))
            return e.some(d, c)
        return NotImplemented
    reg(r'std::string::String::(pop|truncate)$', string_cut, False)

    def regrow(eng, st, f, v, d):
        if 'shrink' in f['path']:
            r, x = vec_place(st, v[0])
            if own(x): e.write(st, r[1], r[2], ('X', 'out', None, x[3]))
        return ('A', d, 0, ())
    reg(r'std::(string::String|vec::Vec::<.*>)::(reserve|reserve_exact|shrink_to_fit|shrink_to)$', regrow, False)

    def append(st, r, items):
        """adds to a text that is owned"""
        r, x = vec_place(st, r)
        if x[0] == 'T': x = ('X', 'out', None, (('lit', x[1]),) if x[1] else ())
        elif x[0] == 'X' and x[1] == 'str': x = ('X', 'out', None, (('fmt', x, 'display', None),))
        elif x[0] == 'X' and x[1] == 'seq' and x[2] is None and all(isinstance(c, int) and c < 128 for c in x[3]):
            x = ('X', 'out', None, (('lit', bytes(x[3]).decode()),) if x[3] else ())
        if x[0] == 'X' and x[1] == 'out': e.write(st, r[1], r[2], x)
        m.emit(st, ('R', r[1], r[2]), items)

    def string_push(eng, st, f, v, d):
        if f['path'].endswith('push'): it = m.piece(st, v[1], 'display', None) if not isinstance(v[1], int) else ('lit', chr(v[1]))
        else:
            t = cs(st, v[1])
            it = ('lit', t[1]) if t[0] == 'T' else ('fmt', t, 'display', None)
        append(st, v[0], [it])
        return ('A', d, 0, ())
    reg(r'std::string::String::(push|push_str)$|<std::string::String as std::ops::AddAssign<&str>>::add_assign$', string_push, False)

    def str_replace(eng, st, f, v, d):
        s = m.norm(st, cs(st, v[0])); p = pat_of(st, v[1])
        if p is None or isinstance(p, list): return NotImplemented
        to = m.norm(st, cs(st, v[2]))
        pt = chr(p) if isinstance(p, int) else p[1] if p[0] == 'T' else None
        if pt is None: return NotImplemented
        if s[0] == 'T' and to[0] == 'T': return ('T', s[1].replace(pt, to[1]))
        if s[0] != 'X' or s[1] != 'str': return NotImplemented
        bn = m.named(st, 'contains', [s, ('T', pt)])
        st.dom.setdefault(bn, ((0, 1),)); st.x[('ty', bn)] = e.ubool
        if not e.truth(st, e.sym(st, bn, e.ubool)): return s
        return ('X', 'str', m.named(st, 'replace', [s, ('T', pt), to]) + '.str', 0, None)
    reg(r'str::<impl str>::replace$', str_replace, False)

    reg(r'<impl std::default::Default for &str>::default$', lambda eng, st, f, v, d: ('T', ''))
    reg(r'^std::char::convert::<impl std::convert::TryFrom<char> for u8>::try_from$', lambda eng, st, f, v, d: u8_from(st, v[0], d))

    def u8_from(st, c, d):
        if isinstance(c, int): return e.ok(d, c) if c < 256 else e.err(d, ('A', e.payload_ty(d, 'Err'), 0, ((),) if False else ()))
        if e.compare(st, 'Lt', c, 256): return e.ok(d, c)
        return e.err(d, e.sym(st, 'TryFromCharError', e.payload_ty(d, 'Err')))

    def from_u32(eng, st, f, v, d):
        c = v[0]
        if not (e.compare(st, 'Lt', c, 0xD800) or e.compare(st, 'Ge', c, 0xE000) and e.compare(st, 'Lt', c, 0x110000)): return e.none(d)
        return e.some(d, e.cast(st, 'IntToInt', c, e.chty, eng.u32ty))
    reg(r'^std::char::convert::from_u32$|char::methods::<impl char>::from_u32$', from_u32, False)

    def join_bytes(eng, st, f, v, d):
        a = v[0]
        if a[0] == 'R': a = e.read(st, a[1], a[2])
        try: q = m.seq(st, a)
        except Unsupported: return NotImplemented
        w = (e.width(d) + 7) // 8
        if q[2] is not None or len(q[3]) != w: return NotImplemented
        its = q[3] if 'be_bytes' in f['path'] else tuple(reversed(q[3]))
        r = None
        for x in its:
            x = e.cast(st, 'IntToInt', x, d, e.u8ty)
            r = x if r is None else e.binop(st, 'BitOr', e.binop(st, 'Shl', r, 8, d), x, d)
        return r
    reg(r'num::<impl [ui]\w+>::from_(le|be|ne)_bytes$', join_bytes, False)

    # classes of characters: exact on ASCII, beyond it either answer is possible
    CLASS = {'is_alphanumeric': str.isalnum, 'is_alphabetic': str.isalpha, 'is_numeric': str.isnumeric, 'is_lowercase': str.islower,
             'is_uppercase': str.isupper, 'is_whitespace': str.isspace, 'is_control': lambda c: ord(c) < 32 or ord(c) == 127}
    CLASS = {k: iv_norm([(c, c) for c in range(128) if f(chr(c)) and not (k == 'is_whitespace' and 0x1c <= c <= 0x1f)]) for k, f in CLASS.items()}

    def char_class(eng, st, f, v, d):
        c = v[0]; kind = f['path'].split('::')[-1]; A = CLASS[kind]
        if not isinstance(c, int) and c[0] == 'R': c = e.read(st, c[1], c[2])
        if isinstance(c, int) and c < 128: return boolv(any(lo <= c <= hi for lo, hi in A))
        if not isinstance(c, int) and c[0] == 'S':
            dd = e.dom(st, c[1], c[2])
            asc = iv_inter(dd, ASCII); hi = iv_minus(dd, ASCII)
            if not hi:
                yes, no = iv_inter(dd, A), iv_minus(dd, A)
                if not no: return 1
                if not yes: return 0
                e.split_dom(c[1], c[2], [yes, no])
            if asc: e.split_dom(c[1], c[2], [x for x in (iv_inter(asc, A), iv_minus(asc, A), hi) if x])
        nm = m.named(st, kind, [c])
        st.dom.setdefault(nm, ((0, 1),))
        return e.sym(st, nm, e.ubool)
    reg(r'char::methods::<impl char>::(' + '|'.join(CLASS) + ')$', char_class)

    def int_minmax(eng, st, f, v, d):
        lt = e.compare(st, 'Lt', v[0], v[1])
        return v[0] if lt == f['path'].endswith('min') else v[1]
    reg(r'intrinsics::integer_(min|max)$', int_minmax)

    # ------------------------------------------------------------ growing sequences
    def vec_place(st, r):
        for _ in range(4):
            if r[0] == 'R':
                v = e.read(st, r[1], r[2])
                if not isinstance(v, int) and (v[0] == 'R' or v[0] == 'S' and T[v[2]]['k'] in ('ref', 'ptr')): r = v; continue
                return r, v
            if r[0] == 'S':
                x = e.deref(st, r); r = ('R', x[1], x[2]); continue
            break
        raise Unsupported('vector %r' % (r,))

    CAP = re.compile(r'ArrayVec(?:::)?<.*,\s*(\d+)>')

    def cap_of(f):
        x = CAP.search(f['name'])
        if not x: raise Unsupported('capacity of ' + f['name'])
        return int(x.group(1))

    def avseq(st, f, r):
        r, v = vec_place(st, r)
        q = m.seq(st, v)
        if q[2] is not None and 'ArrayVec' in f['name']:
            n = 'N@' + q[2]
            c = cap_of(f)
            if n not in st.dom: st.dom[n] = ((0, c),); st.x.setdefault(('ty', n), e.uty)
        return r, q

    def v_len(eng, st, f, v, d):
        r, q = avseq(st, f, v[0]); return m.seq_len(st, q)
    VEC = r'(arrayvec::ArrayVec::<T, CAP>|smallvec::SmallVec::<A>|std::vec::Vec::<T, A>|bumpalo::collections::Vec::<.*T>)'
    reg(VEC + r'::len$', v_len)

    def v_is_empty(eng, st, f, v, d):
        r, q = avseq(st, f, v[0])
        return e.binop(st, 'Eq', m.seq_len(st, q), 0, e.uty)
    reg(VEC + r'::is_empty$', v_is_empty)
    reg(r'arrayvec::ArrayVec::<T, CAP>::is_full$', lambda eng, st, f, v, d: e.binop(st, 'Eq', m.seq_len(st, avseq(st, f, v[0])[1]), cap_of(f), e.uty))
    reg(r'arrayvec::ArrayVec::<T, CAP>::(capacity|remaining_capacity)$', lambda eng, st, f, v, d: cap_of(f) if f['path'].endswith('::capacity') else e.binop(st, 'SubUnchecked', cap_of(f), m.seq_len(st, avseq(st, f, v[0])[1]), e.uty))

    def push(st, r, q, v):
        e.write(st, r[1], r[2], ('X', 'seq', q[2], q[3] + (v,), q[4]))

    def av_try_push(eng, st, f, v, d):
        r, q = avseq(st, f, v[0])
        if e.compare(st, 'Lt', m.seq_len(st, q), cap_of(f)):
            push(st, r, q, v[1]); return e.ok(d, ('A', e.payload_ty(d, 'Ok'), 0, ()))
        return e.err(d, ('A', e.payload_ty(d, 'Err'), 0, (v[1],)))
    reg(r'arrayvec::ArrayVec::<T, CAP>::try_push$', av_try_push)

    def av_push(eng, st, f, v, d):
        r, q = avseq(st, f, v[0])
        if 'ArrayVec' in f['path']:
            # push beyond the capacity panics (push) or is undefined (push_unchecked)
            ln = m.seq_len(st, q); c = cap_of(f)
            if f['path'].endswith('unchecked'): e.demand(st, e.compare(st, 'Lt', ln, c), 'push_unchecked', f['name'])
            lf, loc = e.site(st)
            key = (lf['path'], 'capacity', loc)
            ob = e.obligations.setdefault(key, ['proven', '', 0]); ob[2] += 1
            okk = e.compare(st, 'Lt', ln, c)
            if not okk:
                ob[0] = 'refuted' if st.taint is None else 'unknown'; ob[1] = f['name']
                st.outcome = ('panic', key, st.taint); raise Infeasible()
        push(st, r, q, v[1])
        return ('A', d, 0, ())
    reg(r'arrayvec::ArrayVec::<T, CAP>::(push|push_unchecked)$|smallvec::SmallVec::<A>::push$|std::vec::Vec::<T, A>::push$|bumpalo::collections::Vec::<.*T>::push$', av_push)

    def room(st, f, n):
        """room for this many elements up front: a number out of the input, without bound, asks for more than there is"""
        if isinstance(n, int): return
        lf, loc = e.site(st)
        key = (lf['path'], 'room', loc)
        ob = e.obligations.setdefault(key, ['proven', '', 0]); ob[2] += 1
        if e.compare(st, 'Lt', n, 1 << 58): return
        ob[0] = 'refuted' if st.taint is None else 'unknown'; ob[1] = f['name']
        st.outcome = ('panic', key, st.taint); raise Infeasible()

    def seq_new(eng, st, f, v, d):
        t = T[d]
        if 'with_capacity' in f['path']: room(st, f, v[0])
        q = m.seq(st, ('S', '', d))
        return ('X', 'seq', None, (), q[4])
    reg(r'<arrayvec::ArrayVec<T, CAP> as std::default::Default>::default$|' + VEC + r'::(new|new_in|with_capacity|with_capacity_in)$|^std::vec::Vec::<T>::(new|with_capacity)$|<smallvec::SmallVec<A> as std::default::Default>::default$', seq_new)

    reg(r'<arrayvec::ArrayVec<T, CAP> as std::clone::Clone>::clone$', lambda eng, st, f, v, d: m.seq(st, vec_place(st, v[0])[1]))

    def v_deref(eng, st, f, v, d):
        r, q = avseq(st, f, v[0])
        return ('X', 'sl', r[1], r[2], 0, None)
    reg(r'<(arrayvec::ArrayVec<T, CAP>|smallvec::SmallVec<A>|std::vec::Vec<T, A>|bumpalo::collections::Vec<.*>) as std::ops::Deref(Mut)?>::deref(_mut)?$|' + VEC + r'::(as_slice|as_mut_slice)$', v_deref)

    def v_clear(eng, st, f, v, d):
        r, x = vec_place(st, v[0])
        if own(x): e.write(st, r[1], r[2], ('X', 'out', OWN, ())); return ('A', d, 0, ())
        try: ety = m.seq(st, x)[4]
        except Unsupported: ety = e.u8ty
        e.write(st, r[1], r[2], ('X', 'seq', None, (), ety)); return ('A', d, 0, ())
    reg(VEC + r'::clear$|std::string::String::clear$', v_clear)

    def reseq(st, r, old, q):
        """stores a sequence where it came from"""
        x = e.read(st, r[1], r[2])
        e.write(st, r[1], r[2], ('A', x[1], 0, q[3]) if not isinstance(x, int) and x[0] == 'A' and T[x[1]]['k'] == 'array' and q[2] is None else q)

    def changed_seq(st, q, why, args, dlen):
        """the sequence an operation leaves, known by its length only"""
        nm = m.named(st, why, [q] + args)
        st.subst.setdefault('N@' + nm, dlen)
        return ('X', 'seq', nm, (), q[4])

    def plus(st, q, k):
        l = e.lin(st, m.seq_len(st, q))
        return (l[0] + k, dict(l[1]))

    def in_range(st, f, ok):
        lf, loc = e.site(st)
        key = (lf['path'], 'bounds', loc)
        ob = e.obligations.setdefault(key, ['proven', '', 0]); ob[2] += 1
        if ok: return
        ob[0] = 'refuted' if st.taint is None else 'unknown'; ob[1] = f['name']
        st.outcome = ('panic', key, st.taint); raise Infeasible()

    def sl_copy_from(eng, st, f, v, d):
        a, b = m.sl(st, v[0]), m.sl(st, v[1])
        la, lb = m.sl_len(st, a), m.sl_len(st, b)
        in_range(st, f, e.compare(st, 'Eq', la, lb))
        q, src = m.sl_seq(st, a), m.sl_seq(st, b)
        n = la if isinstance(la, int) else lb
        if q[2] is not None or not isinstance(a[4], int) or not isinstance(n, int) or a[4] + n > len(q[3]):
            e.write(st, a[2], a[3], changed_seq(st, q, 'overwritten', [a[4], la, m.snap(st, b)], plus(st, q, 0)))
            return ('A', d, 0, ())
        new = tuple(m.elem(st, src, e.binop(st, 'AddUnchecked', b[4], k, e.uty)) for k in range(n))
        reseq(st, ('R', a[2], a[3]), q, ('X', 'seq', None, q[3][:a[4]] + new + q[3][a[4] + n:], q[4]))
        return ('A', d, 0, ())
    reg(r'slice::<impl \[T\]>::(copy|clone)_from_slice$', sl_copy_from, False)

    def sl_fill(eng, st, f, v, d):
        s = m.sl(st, v[0]); q = m.sl_seq(st, s)
        hi = len(q[3]) if s[5] is None else s[5]
        if q[2] is not None or not isinstance(s[4], int) or not isinstance(hi, int): return NotImplemented
        reseq(st, ('R', s[2], s[3]), q, ('X', 'seq', None, q[3][:s[4]] + (v[1],) * (hi - s[4]) + q[3][hi:], q[4]))
        return ('A', d, 0, ())
    reg(r'slice::<impl \[T\]>::fill$', sl_fill, False)

    def v_pop(eng, st, f, v, d):
        r, q = avseq(st, f, v[0])
        if q[3]:
            e.write(st, r[1], r[2], ('X', 'seq', q[2], q[3][:-1], q[4])); return e.some(d, q[3][-1])
        if q[2] is None or e.compare(st, 'Eq', m.seq_len(st, q), 0): return e.none(d)
        last = m.elem(st, q, e.binop(st, 'SubUnchecked', m.seq_len(st, q), 1, e.uty))
        e.write(st, r[1], r[2], changed_seq(st, q, 'popped', [], plus(st, q, -1)))
        return e.some(d, last)
    reg(VEC + r'::pop$', v_pop)

    def v_truncate(eng, st, f, v, d):
        r, q = avseq(st, f, v[0]); k = v[1]
        if e.compare(st, 'Le', m.seq_len(st, q), k): return ('A', d, 0, ())
        if q[2] is None and isinstance(k, int): n = ('X', 'seq', None, q[3][:k], q[4])
        elif k == 0: n = ('X', 'seq', None, (), q[4])
        else:
            l = e.lin(st, k)
            if l is None: return NotImplemented
            n = changed_seq(st, q, 'truncated', [k], (l[0], dict(l[1])))
        e.write(st, r[1], r[2], n)
        return ('A', d, 0, ())
    reg(VEC + r'::truncate$', v_truncate)

    def v_insert(eng, st, f, v, d):
        r, q = avseq(st, f, v[0]); k = v[1]
        in_range(st, f, e.compare(st, 'Le', k, m.seq_len(st, q)))
        if 'ArrayVec' in f['path']: in_range(st, f, e.compare(st, 'Lt', m.seq_len(st, q), cap_of(f)))
        if q[2] is None and isinstance(k, int): n = ('X', 'seq', None, q[3][:k] + (v[2],) + q[3][k:], q[4])
        else: n = changed_seq(st, q, 'inserted', [k, m.snap(st, v[2])], plus(st, q, 1))
        e.write(st, r[1], r[2], n)
        return ('A', d, 0, ())
    reg(VEC + r'::insert$', v_insert)

    def v_remove(eng, st, f, v, d):
        r, q = avseq(st, f, v[0]); k = v[1]
        in_range(st, f, e.compare(st, 'Lt', k, m.seq_len(st, q)))
        x = m.elem(st, q, k)
        if q[2] is None and isinstance(k, int):
            n = ('X', 'seq', None, q[3][:k] + q[3][k + 1:], q[4])
            if 'swap' in f['path'] and k + 1 < len(q[3]): n = ('X', 'seq', None, q[3][:k] + q[3][-1:] + q[3][k + 1:-1], q[4])
        else: n = changed_seq(st, q, f['path'].rsplit('::', 1)[-1], [k], plus(st, q, -1))
        e.write(st, r[1], r[2], n)
        return x
    reg(VEC + r'::(swap_)?remove$', v_remove)

    def sl_rotate(eng, st, f, v, d):
        s = m.sl(st, v[0]); q = m.sl_seq(st, s); k = v[1]
        in_range(st, f, e.compare(st, 'Le', k, m.sl_len(st, s)))
        hi = len(q[3]) if s[5] is None else s[5]
        if q[2] is None and isinstance(s[4], int) and isinstance(hi, int) and isinstance(k, int):
            mid = q[3][s[4]:hi]
            if f['path'].endswith('right'): k = len(mid) - k
            n = ('X', 'seq', None, q[3][:s[4]] + mid[k:] + mid[:k] + q[3][hi:], q[4])
        else: n = changed_seq(st, q, f['path'].rsplit('::', 1)[-1], [s[4], s[5], k] if s[5] is not None else [s[4], k], plus(st, q, 0))
        reseq(st, ('R', s[2], s[3]), q, n)
        return ('A', d, 0, ())
    reg(r'slice::<impl \[T\]>::rotate_(left|right)$', sl_rotate)

    def sl_bounds(st, s, k):
        """k < len as True / False (splits)"""
        return e.compare(st, 'Lt', k, m.sl_len(st, s))

    def v_index(eng, st, f, v, d):
        s = m.sl(st, v[0]); k = v[1]
        if not isinstance(k, int) and k[0] in ('A',) or not isinstance(k, int) and k[0] == 'S' and not e.is_scalar(k[2]):
            return sl_range(st, f, s, k)
        lf, loc = e.site(st)
        ln = m.sl_len(st, s)
        e.do_assert(st, None, e.binop(st, 'Lt', k, ln, e.uty), True, [None, None, None, 'bounds'])
        return m.sl_ref(st, s, k)
    reg(r'<bumpalo::collections::Vec<.*> as std::ops::Index(Mut)?<I>>::index(_mut)?$|<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$|slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$|<smallvec::SmallVec<A> as std::ops::Index(Mut)?<I>>::index(_mut)?$', v_index)

    def sl_range(st, f, s, r):
        n = f['name']
        if r[0] == 'S': r = e.materialize(st, r)
        ln = m.sl_len(st, s)
        tn = T[r[1]]['s']
        if 'RangeFrom<' in tn: lo, hi = r[3][0], None
        elif 'RangeToInclusive<' in tn: lo, hi = 0, e.binop(st, 'AddUnchecked', r[3][0], 1, e.uty)
        elif 'RangeTo<' in tn: lo, hi = 0, r[3][0]
        elif 'RangeFull' in tn: lo, hi = 0, None
        elif 'Range<' in tn: lo, hi = r[3][0], r[3][1]
        else: raise Unsupported('range ' + tn)
        e.do_assert(st, None, e.binop(st, 'Le', lo if hi is None else hi, ln, e.uty), True, [None, None, None, 'range'])
        if hi is not None: e.do_assert(st, None, e.binop(st, 'Le', lo, hi, e.uty), True, [None, None, None, 'range'])
        nlo = e.binop(st, 'AddUnchecked', s[4], lo, e.uty)
        nhi = s[5] if hi is None else e.binop(st, 'AddUnchecked', s[4], hi, e.uty)
        return ('X', 'sl', s[2], s[3], nlo, nhi)

    # slices
    reg(r'slice::<impl \[T\]>::len$', lambda eng, st, f, v, d: m.sl_len(st, m.sl(st, v[0])))
    reg(r'slice::<impl \[T\]>::is_empty$', lambda eng, st, f, v, d: e.binop(st, 'Eq', m.sl_len(st, m.sl(st, v[0])), 0, e.uty))

    def sl_get(eng, st, f, v, d):
        s = m.sl(st, v[0]); k = v[1]
        if not isinstance(k, int) and k[0] == 'A': raise Unsupported('get range')
        if sl_bounds(st, s, k): return e.some(d, m.sl_ref(st, s, k))
        return e.none(d)
    reg(r'slice::<impl \[T\]>::get(_mut)?$', sl_get)

    def sl_get_unchecked(eng, st, f, v, d):
        s = m.sl(st, v[0]); k = v[1]
        if not isinstance(k, int) and k[0] == 'A': return NotImplemented
        e.demand(st, sl_bounds(st, s, k), 'get_unchecked', f['name'])
        return m.sl_ref(st, s, k)
    reg(r'slice::<impl \[T\]>::get_unchecked(_mut)?$', sl_get_unchecked)

    def sl_first(eng, st, f, v, d):
        s = m.sl(st, v[0])
        return e.some(d, m.sl_ref(st, s, 0)) if sl_bounds(st, s, 0) else e.none(d)
    reg(r'slice::<impl \[T\]>::first(_mut)?$', sl_first)

    def sl_last(eng, st, f, v, d):
        s = m.sl(st, v[0])
        if not sl_bounds(st, s, 0): return e.none(d)
        return e.some(d, m.sl_ref(st, s, e.binop(st, 'SubUnchecked', m.sl_len(st, s), 1, e.uty)))
    reg(r'slice::<impl \[T\]>::last(_mut)?$', sl_last)

    def sl_split_first(eng, st, f, v, d):
        s = m.sl(st, v[0])
        if not sl_bounds(st, s, 0): return e.none(d)
        rest = ('X', 'sl', s[2], s[3], e.binop(st, 'AddUnchecked', s[4], 1, e.uty), s[5])
        return e.some(d, ('A', pay(d), 0, (m.sl_ref(st, s, 0), rest)))
    reg(r'slice::<impl \[T\]>::split_first(_mut)?$', sl_split_first)

    def sl_split_last(eng, st, f, v, d):
        s = m.sl(st, v[0])
        if not sl_bounds(st, s, 0): return e.none(d)
        n1 = e.binop(st, 'SubUnchecked', m.sl_len(st, s), 1, e.uty)
        rest = ('X', 'sl', s[2], s[3], s[4], e.binop(st, 'AddUnchecked', s[4], n1, e.uty))
        return e.some(d, ('A', pay(d), 0, (m.sl_ref(st, s, n1), rest)))
    reg(r'slice::<impl \[T\]>::split_last(_mut)?$', sl_split_last)

    def sl_reverse(eng, st, f, v, d):
        s = m.sl(st, v[0]); q = m.sl_seq(st, s)
        if q[2] is None and isinstance(s[4], int) and (s[5] is None or isinstance(s[5], int)):
            hi = len(q[3]) if s[5] is None else s[5]
            its = q[3][:s[4]] + tuple(reversed(q[3][s[4]:hi])) + q[3][hi:]
            e.write(st, s[2], s[3], ('X', 'seq', None, its, q[4]) if e.read(st, s[2], s[3])[0] != 'A' else ('A', e.read(st, s[2], s[3])[1], 0, its))
        else:
            nm = m.named(st, 'reversed', [q, s[4], s[5]])
            st.subst.setdefault('N@' + nm, lenlin(st, q))
            e.write(st, s[2], s[3], ('X', 'seq', nm, (), q[4]))
        return ('A', d, 0, ())
    reg(r'slice::<impl \[T\]>::reverse$', sl_reverse)

    def lenlin(st, q):
        l = e.lin(st, m.seq_len(st, q)); return (l[0], dict(l[1]))

    def sl_iter(eng, st, f, v, d):
        s = m.sl(st, v[0])
        return ('X', 'it', s[2], s[3], s[4], m.sl_hi(st, s))
    reg(r"slice::<impl \[T\]>::iter(_mut)?$|slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$", sl_iter)

    def arr_iter(eng, st, f, v, d):
        # iteration over a reference to an array
        if v[0][0] != 'R': return NotImplemented
        x = e.read(st, v[0][1], v[0][2])
        if x[0] == 'S' and T[x[2]]['k'] == 'array': n = T[x[2]].get('len')
        elif x[0] == 'A' and T[x[1]]['k'] == 'array': n = len(x[3])
        else: return NotImplemented
        if not isinstance(n, int): return NotImplemented
        return ('X', 'it', v[0][1], v[0][2], 0, n)
    reg(r"array::<impl std::iter::IntoIterator for &('a )?(mut )?\[T; N\]>::into_iter$", arr_iter)

    def it_next(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'it': raise Unsupported('slice iterator %r' % (it,))
        lo, hi = it[4], it[5]
        if not e.compare(st, 'Lt', lo, hi): return e.none(d)
        if isinstance(lo, int) and isinstance(hi, int) and hi <= 16: eng.counted_round(st)
        e.write(st, r[1], r[2], ('X', 'it', it[2], it[3], e.binop(st, 'AddUnchecked', lo, 1, e.uty), hi))
        return e.some(d, ('R', it[2], it[3] + (('x', lo),)))
    reg(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$|slice::iter::.*Iter.*::next$", it_next)

    # iteration over the elements themselves: the container lives on in a place of its own
    OWNED = r'(std::vec::IntoIter|smallvec::IntoIter|arrayvec::IntoIter|std::array::IntoIter|bumpalo::collections::vec::IntoIter)<.*>'

    def own_iter(eng, st, f, v, d):
        x = v[0]
        if isinstance(x, int): return NotImplemented
        if x[0] == 'A' and T[x[1]]['k'] == 'array': n = len(x[3])
        elif x[0] == 'S' and T[x[2]]['k'] == 'array' and isinstance(T[x[2]].get('len'), int): n = T[x[2]]['len']
        else:
            try: x = m.seq(st, x)
            except Unsupported: return NotImplemented
            n = m.seq_len(st, x)
        st.nfid += 1
        obj = ('owned', st.nfid)
        st.objs[obj] = x
        return ('X', 'it', obj, (), 0, n)
    reg(r"<(std::vec::Vec<T, A>|smallvec::SmallVec<A>|arrayvec::ArrayVec<T, CAP>|bumpalo::collections::Vec<.*>) as std::iter::IntoIterator>::into_iter$|array::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$", own_iter)

    def own_next(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if isinstance(it, int) or it[0] != 'X' or it[1] != 'it': return NotImplemented
        x = (it_next_back if f['path'].endswith('_back') else it_next)(eng, st, f, v, d)
        if x[0] == 'A' and x[3]:
            q = x[3][0]
            return e.some(d, e.read(st, q[1], q[2]))
        return x
    reg(r'<' + OWNED + r' as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$', own_next)

    def own_len(eng, st, f, v, d):
        it = it_place(st, v[0])[1] if v[0][0] == 'R' else v[0]
        if isinstance(it, int) or it[0] != 'X' or it[1] != 'it': return NotImplemented
        return it_len(eng, st, f, v, d)
    reg(r'<' + OWNED + r' as std::iter::(ExactSizeIterator>::len|Iterator>::size_hint)$', own_len)

    def range_next(eng, st, f, v, d):
        r = v[0]
        if r[0] == 'R':
            x = e.read(st, r[1], r[2])
            if not isinstance(x, int) and x[0] == 'A' and all(isinstance(q, int) for q in x[3][:2]) and x[3][0] < x[3][1] <= 16: eng.counted_round(st)
        return NotImplemented
    reg(r'std::ops::Range(Inclusive)?<A>>::next$', range_next)

    def it_next_back(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'it': raise Unsupported('slice iterator %r' % (it,))
        lo, hi = it[4], it[5]
        if not e.compare(st, 'Lt', lo, hi): return e.none(d)
        h1 = e.binop(st, 'SubUnchecked', hi, 1, e.uty)
        e.write(st, r[1], r[2], ('X', 'it', it[2], it[3], lo, h1))
        return e.some(d, ('R', it[2], it[3] + (('x', h1),)))
    reg(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::DoubleEndedIterator>::next_back$", it_next_back)

    def it_nth(eng, st, f, v, d):
        r, it = it_place(st, v[0])
        if it[0] != 'X' or it[1] != 'it' or not isinstance(v[1], int): return NotImplemented
        lo, hi = it[4], it[5]; n = v[1]
        back = f['path'].endswith('_back')
        left = e.binop(st, 'SubUnchecked', hi, lo, e.uty)
        if not e.compare(st, 'Lt', n, left):
            e.write(st, r[1], r[2], ('X', 'it', it[2], it[3], lo, lo) if back else ('X', 'it', it[2], it[3], hi, hi))
            return e.none(d)
        if back:
            k = e.binop(st, 'SubUnchecked', hi, n + 1, e.uty)
            e.write(st, r[1], r[2], ('X', 'it', it[2], it[3], lo, k))
        else:
            k = e.binop(st, 'AddUnchecked', lo, n, e.uty)
            e.write(st, r[1], r[2], ('X', 'it', it[2], it[3], e.binop(st, 'AddUnchecked', k, 1, e.uty), hi))
        return e.some(d, ('R', it[2], it[3] + (('x', k),)))
    reg(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::(Iterator>::nth|DoubleEndedIterator>::nth_back)$", it_nth)

    def wsub(eng, st, f, v, d):
        # below zero or not: two cases
        if isinstance(v[1], int) and not isinstance(v[0], int) and T[d].get('s') == 'usize':
            if not e.compare(st, 'Lt', v[0], v[1]): return e.binop(st, 'SubUnchecked', v[0], v[1], d)
        return NotImplemented
    reg(r'num::<impl usize>::wrapping_sub$', wsub)

    def it_len(eng, st, f, v, d):
        r, it = it_place(st, v[0]) if v[0][0] == 'R' else (None, v[0])
        if it[0] != 'X' or it[1] != 'it': raise Unsupported('slice iterator %r' % (it,))
        n = e.binop(st, 'SubUnchecked', it[5], it[4], e.uty)
        if f['path'].endswith('size_hint'):
            t = T[d]['fields']
            return ('A', d, 0, (n, e.some(t[1], n)))
        return n
    reg(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::ExactSizeIterator>::len$|<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::(size_hint|count)$", it_len)
    reg(r"<std::slice::Iter<'a, T> as std::clone::Clone>::clone$", lambda eng, st, f, v, d: it_place(st, v[0])[1])

    def sl_swap(eng, st, f, v, d):
        s = m.sl(st, v[0])
        a, b = m.sl_ref(st, s, v[1]), m.sl_ref(st, s, v[2])
        x, y = e.read(st, a[1], a[2]), e.read(st, b[1], b[2])
        e.write(st, a[1], a[2], y); e.write(st, b[1], b[2], x)
        return ('A', d, 0, ())
    reg(r'slice::<impl \[T\]>::swap$', sl_swap)

    def sl_windows(eng, st, f, v, d): return NotImplemented

    # mem
    def mem_swap(eng, st, f, v, d):
        a, b = v
        x, y = e.read(st, a[1], a[2]), e.read(st, b[1], b[2])
        e.write(st, a[1], a[2], y); e.write(st, b[1], b[2], x)
        return ('A', d, 0, ())
    reg(r'^std::mem::swap$|intrinsics::typed_swap_nonoverlapping$', mem_swap)

    def mem_replace(eng, st, f, v, d):
        r, x = vec_place(st, v[0]) if False else (v[0], None)
        rr = e.deref(st, v[0])
        old = e.read(st, rr[1], rr[2]); e.write(st, rr[1], rr[2], v[1])
        return old
    reg(r'^std::mem::replace$', mem_replace)

    def mem_take(eng, st, f, v, d):
        if T[d].get('path') in ('std::string::String', 'std::vec::Vec'):
            rr = e.deref(st, v[0])
            old = e.read(st, rr[1], rr[2])
            e.write(st, rr[1], rr[2], ('X', 'seq', None, (), e.u8ty))
            return old
        return NotImplemented
    reg(r'^std::mem::take$', mem_take)

    def sat_sub(eng, st, f, v, d):
        a, b = v[-2], v[-1]
        if e.compare(st, 'Lt', a, b): return 0
        return e.binop(st, 'SubUnchecked', a, b, d)
    reg(r'intrinsics::saturating_sub$', sat_sub)

    def sat_add(eng, st, f, v, d):
        a, b = v[-2], v[-1]; top = e.trange(d)[-1][1]
        if isinstance(b, int):
            if e.compare(st, 'Le', a, top - b): return e.binop(st, 'AddUnchecked', a, b, d)
            return top
        return NotImplemented
    reg(r'intrinsics::saturating_add$', sat_add)

    # ------------------------------------------------------------ strings as owned buffers
    reg(r'std::string::String::(new|with_capacity)$|<std::string::String as std::default::Default>::default$', lambda eng, st, f, v, d: ('X', 'seq', None, (), e.u8ty))
    reg(r'std::string::String::into_bytes$', lambda eng, st, f, v, d: v[0])

    def is_utf8(st, x):
        """is this byte buffer certainly text?"""
        if isinstance(x, int): return False
        if x[0] == 'T' or x[0] == 'X' and x[1] == 'str': return True
        if x[0] == 'X' and x[1] == 'seq': return x[2] is None and all(isinstance(b, int) and b < 128 for b in x[3])
        if x[0] == 'X' and x[1] == 'out': return x[2] in (None, OWN) and all(i[0] == 'lit' for i in x[3])
        return False

    def from_utf8_unchecked(eng, st, f, v, d):
        e.demand(st, is_utf8(st, v[0]), 'from_utf8_unchecked', f['name'])
        return v[0]
    reg(r'std::string::String::from_utf8_unchecked$', from_utf8_unchecked)
    reg(r'std::string::FromUtf8Error::into_bytes$', lambda eng, st, f, v, d: v[0][2] if v[0][0] == 'X' and v[0][1] == 'u8err' else NotImplemented)

    def from_utf8(eng, st, f, v, d):
        x = v[0]
        owned = 'String' in f['path']
        if not owned and x[0] == 'T': return e.ok(d, x)
        if not owned and x[0] == 'X' and x[1] == 'sl':
            s = m.sl(st, x); x = e.read(st, s[2], s[3])
            if not (isinstance(s[4], int) and s[4] == 0 and s[5] is None):
                q = m.seq(st, x)
                if q[2] is None and all(isinstance(c, int) for c in q[3]) and isinstance(s[4], int) and (s[5] is None or isinstance(s[5], int)):
                    x = ('X', 'seq', None, q[3][s[4]:s[5]], q[4])
                else: x = ('X', 'sls', m.snap(st, q), s[4], s[5])
        if x[0] == 'X' and x[1] == 'seq' and x[2] is None and all(isinstance(c, int) for c in x[3]):
            try: return e.ok(d, ('T', bytes(x[3]).decode()))
            except UnicodeDecodeError: return e.err(d, e.sym(st, 'Utf8Error', e.payload_ty(d, 'Err')))
        if not owned and x[0] == 'X' and x[1] == 'out' and x[2] is None and all(i[0] == 'lit' for i in x[3]):
            return e.ok(d, ('T', ''.join(i[1] for i in x[3])))
        nm = m.named(st, 'utf8', [x])
        bn = nm + '.valid'
        if m.mode == 'ref' and bn not in st.dom:
            # a text that differs: what is made of it is compared, not whether it is text at all
            twin = next((q for g, q, _ in st.x['calls'] if g == 'utf8' and '#r' not in q and q not in st.x.get('used', ())), None)
            if twin and twin + '.valid' in st.dom:
                st.x['used'] = st.x.get('used', frozenset()) | {twin}
                bn = twin + '.valid'
        st.dom.setdefault(bn, ((0, 1),)); st.x[('ty', bn)] = e.ubool
        if e.truth(st, e.sym(st, bn, e.ubool)):
            if owned: return e.ok(d, x)
            return e.ok(d, x if x[0] == 'X' and x[1] == 'out' else ('X', 'str', nm + '.str', 0, None))
        return e.err(d, ('X', 'u8err', x) if owned else e.sym(st, nm + '.Utf8Error', e.payload_ty(d, 'Err')))
    reg(r'^std::str::from_utf8$|std::string::String::from_utf8$', from_utf8)
    reg(r'^std::str::from_utf8_unchecked$', lambda eng, st, f, v, d: v[0] if v[0][0] in ('T',) else NotImplemented)

    def into_bump_slice(eng, st, f, v, d):
        x = v[0]
        st.nfid += 1
        o = ('tmp', st.nfid); st.objs[o] = x
        return ('X', 'sl', o, (), 0, None)
    reg(r'bumpalo::collections::Vec::<.*T>::into_bump_slice$', into_bump_slice)

    # ------------------------------------------------------------ arena
    def bump_alloc(eng, st, f, v, d):
        st.nfid += 1
        o = ('arena', st.nfid); st.objs[o] = v[1]
        return ('R', o, ())
    reg(r'bumpalo::Bump::alloc$', bump_alloc)

    def alloc_slice_copy(eng, st, f, v, d):
        s = m.sl(st, v[1]); q = m.sl_seq(st, s)
        st.nfid += 1
        o = ('arena', st.nfid); st.objs[o] = q
        return ('X', 'sl', o, (), s[4], s[5])
    reg(r'bumpalo::Bump::alloc_slice_(copy|clone)$', alloc_slice_copy)

    def alloc_str(eng, st, f, v, d): return cs(st, v[1])
    reg(r'bumpalo::Bump::alloc_str$', alloc_str)
    reg(r'<bumpalo::Bump as std::default::Default>::default$|bumpalo::Bump::new$', lambda eng, st, f, v, d: e.sym(st, 'Bump', d))
    reg(r'bumpalo::collections::Vec::<.*T>::bump$', lambda eng, st, f, v, d: e.sym(st, 'bump', d))
    reg(r'nonmax::NonMaxUsize::get$|nonmax::NonMaxUsize::new_unchecked$', lambda eng, st, f, v, d: nonmax(st, f, v, d))

    def nonmax(st, f, v, d):
        x = v[0]
        if f['path'].endswith('get'):
            if not isinstance(x, int) and x[0] == 'R': x = e.read(st, x[1], x[2])
            if not isinstance(x, int) and x[0] == 'X' and x[1] == 'nm': return x[2]
            if not isinstance(x, int) and x[0] == 'S': return e.sym(st, x[1], e.uty)
            raise Unsupported('nonmax')
        if not isinstance(x, int) and not e.lin(st, x): raise Unsupported('nonmax')
        e.demand(st, e.compare(st, 'Lt', x, 2**64 - 1), 'NonMaxUsize::new_unchecked', f['name'])
        return ('X', 'nm', x)
    reg(r'nonmax::NonMaxUsize::new$', lambda eng, st, f, v, d: e.some(d, ('X', 'nm', v[0])))

    # ------------------------------------------------------------ formatting
    def mkarg(eng, st, f, v, d):
        kind = f['path'].rsplit('new_', 1)[1]
        ty = f['name'].rsplit('::<', 1)[-1].rstrip('>') if '::<' in f['name'] else ''
        if kind == 'display' and ty in ('char', '&char'): kind = 'char'
        elif kind == 'display' and ty in ('bool', '&bool'): kind = 'bool'
        elif kind == 'display' and ('::' in ty and 'str' not in ty and 'String' not in ty): kind = '?display:' + ty
        return ('X', 'arg', kind, v[0])
    reg(r"core::fmt::rt::Argument::<'_>::new_", mkarg)

    def fmt_from_str(eng, st, f, v, d): return ('X', 'fmt', (('lit', cs(st, v[0])[1]),))
    reg(r"std::fmt::Arguments::<'a>::from_str(_nonconst)?$", fmt_from_str)

    def fmt_new(eng, st, f, v, d):
        tv = v[0]
        tv = e.read(st, tv[1], tv[2]) if tv[0] == 'R' else tv
        if tv[0] == 'T': b = list(tv[1].encode('latin1'))
        else: b = [x for x in m.seq(st, tv)[3]] if tv[0] != 'A' else list(tv[3])
        av = v[1]
        av = e.read(st, av[1], av[2]) if av[0] == 'R' else av
        args = list(av[3]) if av[0] == 'A' else list(m.sl_seq(st, m.sl(st, av))[3])
        items = []; i = 0; nxt = 0
        while i < len(b):
            c = b[i]; i += 1
            if c == 0: break
            if c < 0x80:
                items.append(('lit', bytes(b[i:i + c]).decode())); i += c
            elif c == 0x80:
                n = b[i] | b[i + 1] << 8; i += 2
                items.append(('lit', bytes(b[i:i + n]).decode())); i += n
            elif c & 0xC0 == 0xC0:
                flags = width = prec = None; idx = nxt
                if c & 1: flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24; i += 4
                if c & 2: width = b[i] | b[i + 1] << 8; i += 2
                if c & 4: prec = b[i] | b[i + 1] << 8; i += 2
                if c & 8: idx = b[i] | b[i + 1] << 8; i += 2
                if c & 0x30: raise Unsupported('indirect format')
                nxt = idx + 1
                if idx >= len(args): raise Unsupported('format argument')
                a = args[idx]
                spec = (flags, width, prec) if (flags, width, prec) != (None, None, None) else None
                if a[0] == 'X' and a[1] == 'arg': items.append(m.piece(st, a[3], a[2], spec))
                else: raise Unsupported('format argument %r' % (a,))
            else: raise Unsupported('format template')
        return ('X', 'fmt', tuple(m.flat(items)))
    reg(r"std::fmt::Arguments::<'a>::new$", fmt_new)
    reg(r"std::fmt::Arguments::<'a>::new_const$", lambda eng, st, f, v, d: NotImplemented)
    reg(r"std::fmt::Arguments::<'a>::as_(statically_known_)?str$", lambda eng, st, f, v, d: NotImplemented)

    def write_fmt(eng, st, f, v, d):
        if v[1][0] != 'X' or v[1][1] != 'fmt': raise Unsupported('write_fmt %r' % (v[1],))
        return m.write_result(st, v[0], v[1][2], d)
    reg(r'^std::io::Write::write_fmt$', write_fmt)

    def write_all(eng, st, f, v, d):
        s = v[1]
        if s[0] == 'X' and s[1] == 'sl':
            q = m.sl_seq(st, s)
            lo, hi = s[4], len(q[3]) if s[5] is None else s[5]
            if q[2] is None and all(isinstance(c, int) for c in q[3]) and isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi <= len(q[3]):
                try: s = ('T', bytes(q[3][lo:hi]).decode('utf8'))
                except UnicodeDecodeError: raise Unsupported('write_all')
            else: raise Unsupported('write_all')
        s = cs(st, s)
        return m.write_result(st, v[0], (m.piece(st, s, 'display', None),), d)
    reg(r'^std::io::Write::write_all$', write_all)

    def write_result(st, w, items, d):
        m.out_of(st, w)
        res = []
        if e.fail and st.failed is None and m.forking:
            n = st.copy(); n.failed = e.site(st)[1]
            res.append((n, e.err(d, e.sym(n, 'io_error', e.payload_ty(d, 'Err')))))
        m.emit(st, w, items)
        okv = e.ok(d, ('A', e.payload_ty(d, 'Ok'), 0, ()))
        if res: return [(st, okv)] + res
        return okv
    m.write_result = write_result

    def text_of(st, items):
        """the owned text these pieces make"""
        l = []
        for it in items:
            if it[0] == 'lit' and l and l[-1][0] == 'lit': l[-1] = ('lit', l[-1][1] + it[1])
            elif it[0] != 'lit' or it[1]: l.append(it)
        if not l: return ('T', '')
        if len(l) == 1 and l[0][0] == 'lit': return ('T', l[0][1])
        if len(l) == 1 and l[0][0] == 'fmt' and l[0][2] == 'display' and not l[0][3] and not isinstance(l[0][1], int) and l[0][1][:2] == ('X', 'str'): return l[0][1]
        return ('X', 'out', None, tuple(l))

    def fmt_format(eng, st, f, v, d):
        if isinstance(v[0], int) or v[0][:2] != ('X', 'fmt'): return NotImplemented
        return text_of(st, m.flat(v[0][2]))
    reg(r'^(std|alloc)::fmt::format(::format_inner)?$', fmt_format, False)

    def num_text(eng, st, f, v, d):
        if T[d].get('path') != 'std::string::String': return NotImplemented
        ty = re.match(r'<(\w+) as ', f['name'])
        ty = ty and ty.group(1)
        if ty not in ('char', 'bool', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'): return NotImplemented
        x = m.strip(st, v[0])
        if isinstance(x, int) and ty not in ('char', 'bool'): return ('T', str(x))
        if isinstance(x, int) and ty == 'char': return ('T', chr(x))
        return text_of(st, [m.piece(st, x, ty if ty in ('char', 'bool') else 'display', None)])
    reg(r'^<\w+ as std::string::(Spec)?ToString>::(spec_)?to_string$', num_text, False)

    def text_items(st, x):
        """pieces of a text, or None"""
        if isinstance(x, int): return None
        if x[0] == '&': return text_items(st, x[1])
        if x[0] == 'R': return text_items(st, e.read(st, x[1], x[2]))
        if x[0] == 'X' and x[1] == 'out': return list(x[3]) if x[2] is None else None
        if x[0] == 'X' and x[1] == 'seq' and x[2] is None and not x[3]: return []
        try: s = m.norm(st, cs(st, x))
        except (Unsupported, KeyError, TypeError): return None
        return [('lit', s[1])] if s[0] == 'T' else [('fmt', s, 'display', None)]

    def text_join(eng, st, f, v, d):
        if T[d].get('path') != 'std::string::String': return NotImplemented
        s = m.sl(st, v[0]); q = m.sl_seq(st, s)
        hi = len(q[3]) if s[5] is None else s[5]
        if q[2] is not None or not isinstance(s[4], int) or not isinstance(hi, int): return NotImplemented
        sep = []
        if len(v) > 1:
            sep = [('lit', chr(v[1]))] if isinstance(v[1], int) else text_items(st, v[1])
            if sep is None: return NotImplemented
        out = []
        for k, x in enumerate(q[3][s[4]:hi]):
            its = text_items(st, x)
            if its is None: return NotImplemented
            if k: out += sep
            out += its
        return text_of(st, out)
    reg(r'<impl std::slice::(Join|Concat)<.*> for \[.*\]>::(join|concat)$|slice::<impl \[.*\]>::(join|concat)$', text_join, False)

    # widening conversions
    def widen(eng, st, f, v, d):
        a = re.search(r'From<(bool|char|[iu](?:8|16|32|64|128|size))> for ', f['path'])
        frm = a and next((i for i, t in enumerate(T) if t['s'] == a.group(1)), None)
        if frm is None or not e.is_scalar(d): return NotImplemented
        return e.cast(st, 'IntToInt', v[0], d, frm)
    reg(r'convert::<impl std::convert::From<(bool|char|\w+)> for (char|[iu]\w+)>::from$|convert::num::<impl std::convert::From<\w+> for \w+>::from$', widen)

    # bytes of a string: a character below 128 is its own byte
    def byte_of(st, c, what):
        if e.compare(st, 'Lt', c, 128): return (c if isinstance(c, int) else e.cast(st, 'IntToInt', c, e.u8ty, e.chty)), True
        if isinstance(c, int): return chr(c).encode()[0 if what == 'lead' else -1], False
        nm = m.named(st, what + '_byte', [c])
        st.dom.setdefault(nm, ((0xC2, 0xF4),) if what == 'lead' else ((0x80, 0xBF),)); st.x[('ty', nm)] = e.u8ty
        return e.sym(st, nm, e.u8ty), False

    def by_place(st, r):
        r, it = it_place(st, r)
        if it[0] != 'X' or it[1] != 'by' or it[2] is None: raise Unsupported('bytes %r' % (it,))
        return r, it[2]

    def by_next(eng, st, f, v, d):
        r, s = by_place(st, v[0])
        c = m.has(st, s, 0)
        if c is None: return e.none(d)
        b, whole = byte_of(st, c, 'lead')
        e.write(st, r[1], r[2], ('X', 'by', m.adv(s, 1) if whole else None))
        return e.some(d, b)
    reg(r'<std::str::Bytes<.*> as std::iter::Iterator>::next$', by_next)

    def by_back(st, s, d):
        if s[0] == 'X' and s[1] == 'out':
            items = m.render_items(st, s[3])
            if items and items[-1][0] == 'lit': return e.some(d, items[-1][1].encode()[-1]), None
            if not items and s[2] is None: return e.none(d), None
            nm = 'last_byte'
            return e.sym(st, m.named(st, nm, [s]), d), None
        if m.at_end(st, s): return e.none(d), s
        b, whole = byte_of(st, last_of(st, s), 'trail')
        rest = None if not whole else ('T', s[1][:-1]) if s[0] == 'T' else ('X', 'str', s[2], s[3], s[4] - 1) if s[4] is not None else None
        return e.some(d, b), rest

    def by_next_back(eng, st, f, v, d):
        r, s = by_place(st, v[0])
        val, rest = by_back(st, s, d)
        e.write(st, r[1], r[2], ('X', 'by', rest))
        return val
    reg(r'<std::str::Bytes<.*> as std::iter::DoubleEndedIterator>::next_back$', by_next_back)
    reg(r'<std::str::Bytes<.*> as std::iter::Iterator>::last$', lambda eng, st, f, v, d: by_back(st, v[0][2], d)[0])
    reg(r'<std::str::Bytes<.*> as std::iter::Iterator>::count$', lambda eng, st, f, v, d: m.nbytes(st, v[0][2]))
    reg(r'<std::str::Bytes<.*> as std::iter::ExactSizeIterator>::len$', lambda eng, st, f, v, d: m.nbytes(st, by_place(st, v[0])[1]))
    reg(r'str::<impl str>::bytes$', lambda eng, st, f, v, d: ('X', 'by', cs(st, v[0])))

    def out_last(st, out, d):
        items = m.render_items(st, out[3])
        if items and items[-1][0] == 'lit': return e.some(d, ord(items[-1][1][-1]))
        if not items and out[2] is None: return e.none(d)
        return e.sym(st, m.named(st, 'last_char', [out]), d)

    def w_last_char(eng, st, f, v, d):
        o, p, out = m.out_of(st, v[0])
        return out_last(st, out, d)
    reg(r'^Writer::last_char$|^<demangler::writing::BufWriter<B> as Writer>::last_char$', w_last_char, False)

    def w_len(eng, st, f, v, d):
        o, p, out = m.out_of(st, v[0])
        items = out[3]
        # an offset to the length of the text written so far
        c = 0; k = len(items)
        while k and items[k - 1][0] == 'lit': c += len(items[k - 1][1].encode()); k -= 1
        if k == 0 and out[2] is None: return c
        nm = 'N@' + m.named(st, 'len_bytes', [('X', 'out', out[2], items[:k])])
        st.dom.setdefault(nm, ((0, 2**40),)); st.x.setdefault(('ty', nm), e.uty)
        return e.binop(st, 'AddUnchecked', e.sym(st, nm, e.uty), c, e.uty)
    reg(r'^Writer::len_bytes$|^<demangler::writing::BufWriter<B> as Writer>::len_bytes$', w_len, False)

    # the sinks behind the output buffer: deterministic, and free to fail
    def sink(eng, st, f, v, d):
        nm = m.named(st, 'sink::' + f['path'].rsplit('::', 1)[1], v)
        r = v[0]
        x = e.read(st, r[1], r[2])
        ty = x[2] if x[0] == 'S' else None
        if ty is None: raise Unsupported('sink')
        e.write(st, r[1], r[2], e.sym(st, nm + '.sink', ty))
        return e.sym(st, nm, d)
    reg(r'std::io::Write for std::vec::Vec<u8.*>>::(write|flush)$|<bumpalo::collections::Vec<.*u8> as std::io::Write>::(write|flush)$', sink)

    # errors are not compared beyond being errors
    def mkerr(eng, st, f, v, d): return e.sym(st, 'error', d)
    reg(r'std::io::Error::new|<std::io::Error as std::convert::From<.*>>::from$|std::io::error::<impl std::convert::From<.*> for std::io::Error>::from$|std::io::Error::other|core::io::error::', mkerr)

    # pointers / options that need no expansion
    reg(r'std::ptr::const_ptr::<impl \*const T>::is_aligned_to$', lambda eng, st, f, v, d: 1)
    reg(r'<.* as std::borrow::Borrow<.*>>::borrow$', lambda eng, st, f, v, d: NotImplemented)

    # ------------------------------------------------------------ node handles
    def resolve(eng, st, f, v, d):
        key = m.hkey(st, v[0])
        r = m.view(st, key, d)
        if r is None:
            lf, loc = e.site(st)
            k = (lf['path'], 'node kind', loc)
            ob = e.obligations.setdefault(k, ['proven', '', 0]); ob[2] += 1
            ob[0] = 'refuted' if st.taint is None else 'unknown'; ob[1] = f['name']
            st.outcome = ('panic', k, st.taint); raise Infeasible()
        return r
    reg(r'cache::NodeHandle::<T>::resolve(_mut)?$', resolve, False)

    def intern(eng, st, f, v, d):
        node = v[1]
        k = st.x.get('nnodes', 0)
        res = []
        if e.fail and st.failed is None and m.forking:
            n = st.copy(); n.failed = e.site(st)[1]
            res.append((n, e.err(d, e.sym(n, 'intern_error', e.payload_ty(d, 'Err')))))
        ty = node[1] if node[0] == 'A' else node[2]
        kind = m.kind_of.get(T[ty].get('path'))
        if kind is None: raise Unsupported('intern of ' + T[ty]['s'])
        st.x['nnodes'] = k + 1
        st.x[('nk', k)] = kind
        st.objs[('node', k)] = node
        hty = e.payload_ty(d, 'Ok')
        h = ('A', hty, 0, (('X', 'h', ('i', k)),) + tuple(e.sym(st, 'phantom', t) for _, t in T[hty]['variants'][0]['fields'][1:]))
        okv = e.ok(d, h)
        return [(st, okv)] + res if res else okv
    reg(r"cache::NodeCache::<'alloc>::intern$", intern, False)

    # ------------------------------------------------------------ the mangled string
    def ms(st, r):
        """place and value of a MangledString receiver (by value or by reference)"""
        if r[0] == 'R' or r[0] == 'S' and T[r[2]]['k'] == 'ref':
            x = e.deref(st, r) if r[0] == 'S' else ('loc', r[1], r[2])
            v = e.read(st, x[1], x[2])
            if v[0] == 'R': return ms(st, v)
            return ('R', x[1], x[2]), v
        return None, r

    def ms_str(st, v):
        fi = next(i for i, (n, t) in enumerate(T[v[1] if v[0] == 'A' else v[2]]['variants'][0]['fields']) if T[t]['s'].startswith('&') and T[t]['s'].endswith('str'))
        x = v[3][fi] if v[0] == 'A' else e.proj_field(st, v, fi, T[v[2]]['variants'][0]['fields'][fi][1])
        return m.as_str(st, x)

    def ms_make(st, ty, s):
        fs = []
        for n, t in T[ty]['variants'][0]['fields']:
            if T[t]['s'] == 'usize': fs.append(m.count(st, s))
            elif T[t]['k'] == 'ref': fs.append(s)
            else: raise Unsupported('MangledString field ' + n)
        return ('A', ty, 0, tuple(fs))
    m.ms_make = ms_make; m.ms_str = ms_str

    def ms_adv(st, r, v, s, n):
        e.write(st, r[1], r[2], ms_make(st, v[1] if v[0] == 'A' else v[2], m.adv(s, n)))

    def msm(name, fn): reg(r"^mangled_string::MangledString::<'string>::%s$" % name, fn, False)

    def try_consume(eng, st, f, v, d):
        r, x = ms(st, v[0]); s = ms_str(st, x)
        c = m.has(st, s, 0)
        if c is None: return e.none(d)
        ms_adv(st, r, x, s, 1)
        return e.some(d, c)
    msm('try_consume', try_consume)

    def try_consume_char(eng, st, f, v, d):
        r, x = ms(st, v[0]); s = ms_str(st, x)
        c = m.charat(st, s, 0)
        if not e.compare(st, 'Eq', c, v[1]): return e.none(d)
        ms_adv(st, r, x, s, 1)
        return e.some(d, v[1])
    msm('try_consume_char', try_consume_char)

    def try_consume_char_if(eng, st, f, v, d):
        r, x = ms(st, v[0]); s = ms_str(st, x)
        c = m.has(st, s, 0)
        if c is None: return e.none(d)
        cl = v[1]
        st.nfid += 1
        o = ('tmp', st.nfid); st.objs[o] = c
        b = m.call_closure(st, cl, [('R', o, ())])
        if not e.truth(st, b): return e.none(d)
        ms_adv(st, r, x, s, 1)
        c = m.charat(st, s, 0)
        return e.some(d, c)
    msm('try_consume_char_if', try_consume_char_if)

    def try_consume_n_chars(eng, st, f, v, d):
        r, x = ms(st, v[0]); s = ms_str(st, x)
        aty = pay(d); n = T[aty].get('len')
        cs_ = []
        for k in range(n):
            c = m.has(st, s, k)
            if c is None: return e.none(d)
            cs_.append(c)
        ms_adv(st, r, x, s, n)
        return e.some(d, ('A', aty, 0, tuple(cs_)))
    msm('try_consume_n_chars', try_consume_n_chars)

    def try_consume_str(eng, st, f, v, d):
        r, x = ms(st, v[0]); s = ms_str(st, x)
        p = m.norm(st, cs(st, v[1]))
        if p[0] != 'T': return NotImplemented
        if not prefix(st, s, p[1]): return e.none(d)
        ms_adv(st, r, x, s, len(p[1]))
        return e.some(d, p)
    msm('try_consume_str', try_consume_str)

    def try_consume_n_bytes(eng, st, f, v, d):
        r, x = ms(st, v[0]); s = ms_str(st, x); off = v[1]
        if not m.cuttable(st, s, off): return e.none(d)
        a, b = m.split_str(st, s, off)
        e.write(st, r[1], r[2], ms_make(st, x[1] if x[0] == 'A' else x[2], b))
        return e.some(d, a)
    msm('try_consume_n_bytes', try_consume_n_bytes)

    msm('first_char', lambda eng, st, f, v, d: opt(d, m.has(st, ms_str(st, ms(st, v[0])[1]), 0)))
    msm('is_empty', lambda eng, st, f, v, d: boolv(m.at_end(st, ms_str(st, ms(st, v[0])[1]))))
    msm('as_str', lambda eng, st, f, v, d: ms_str(st, ms(st, v[0])[1]))
    msm('len_bytes', lambda eng, st, f, v, d: m.nbytes(st, ms_str(st, ms(st, v[0])[1])))
    msm('len_chars', lambda eng, st, f, v, d: m.count(st, ms_str(st, ms(st, v[0])[1])))
    msm('find_char', lambda eng, st, f, v, d: find_char(st, ms_str(st, ms(st, v[0])[1]), v[1], d))

    def ms_last(eng, st, f, v, d):
        s = ms_str(st, ms(st, v[0])[1])
        return e.none(d) if m.at_end(st, s) else e.some(d, last_of(st, s))
    msm('last_char', ms_last)

    def ms_starts(eng, st, f, v, d):
        s = ms_str(st, ms(st, v[0])[1]); p = m.norm(st, cs(st, v[1]))
        if p[0] != 'T': return NotImplemented
        return boolv(prefix(st, s, p[1]))
    msm('starts_with', ms_starts)

    def ms_new(eng, st, f, v, d): return ms_make(st, d, m.norm(st, cs(st, v[0])))
    msm('new', ms_new)

    def ms_lsp(eng, st, f, v, d):
        s = ms_str(st, ms(st, v[0])[1])
        c = m.charat(st, s, 0)
        # the pattern begins with '?'
        if not e.compare(st, 'Eq', c, ord('?')): return 0
        nm = m.named(st, 'starts_with_local_scope_pattern', [s])
        st.dom.setdefault(nm, ((0, 1),))
        return e.sym(st, nm, e.ubool)
    m.ms_lsp = ms_lsp
    msm('starts_with_local_scope_pattern', lambda eng, st, f, v, d: NotImplemented if m.lsp_unit else ms_lsp(eng, st, f, v, d))


def noop(): pass
