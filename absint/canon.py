"""Bring the data layout of the code under analysis into the reference's terms: a local type that was
renamed or moved gets the reference's path, and the fields of a type whose declaration was rearranged
are renumbered into the reference's order. Layout is not observable, so a comparison must not see it;
fields the reference does not know are kept behind the known ones and listed in `extra`."""
import json, re


def adts(d):
    out = {}
    for i, t in enumerate(d['types']):
        if t['k'] == 'adt' and t.get('local'): out.setdefault(t['path'], []).append(i)
    return out


def shape(d, i):
    """[(variant, field, type text)] of a type, its own path written as Self"""
    t = d['types'][i]
    own = t['path']
    return [(v['name'] if t['adt'] == 'enum' else '', n, d['types'][f]['s'].replace(own, 'Self')) for v in t['variants'] for n, f in v['fields']] \
        + [(v['name'], None, '') for v in t['variants'] if t['adt'] == 'enum']


def likeness(a, b):
    if not a and not b: return 0
    same = lambda x, y: sum(1 for p in x if p in y)
    full = same(a, b) / max(len(a), len(b))
    an = [(v, n) for v, n, _ in a]; bn = [(v, n) for v, n, _ in b]
    names = same(an, bn) / max(len(an), len(bn))
    ty = lambda l: sorted(x for _, n, x in l if n is not None)
    types = 1 if len(a) == len(b) and ty(a) == ty(b) and ty(a) else 0
    return max(full, names * 0.9, types * 0.6)


def renames(code, ref):
    """local types of the code that stand for a type of the reference under another path"""
    ca, ra = adts(code), adts(ref)
    new = [p for p in ca if p not in ra]; old = [p for p in ra if p not in ca]
    c = []
    for p in new:
        for q in old:
            tp, tq = code['types'][ca[p][0]], ref['types'][ra[q][0]]
            if tp['adt'] != tq['adt']: continue
            s = likeness(shape(code, ca[p][0]), shape(ref, ra[q][0]))
            if p.split('::')[-1] == q.split('::')[-1]: s = max(s, 0.3) + 1
            if s >= 0.5: c.append((s, p, q))
    out = {}
    for s, p, q in sorted(c, reverse=True):
        if p in out or q in out.values(): continue
        out[p] = q
    return out


def apply_renames(d, m):
    if not m: return d
    rx = re.compile(r'(?<![\w:])(%s)(?!\w)' % '|'.join(re.escape(p) for p in sorted(m, key=len, reverse=True)))
    d = json.loads(rx.sub(lambda k: m[k.group(1)], json.dumps(d, ensure_ascii=False)))
    for t in d['types']:
        if t['k'] == 'adt' and t['adt'] == 'struct' and t.get('local') and t['path'] in m.values():
            t['variants'][0]['name'] = t['path'].split('::')[-1]
    return d


def orders(code, ref):
    """{type index of the code: {variant: [old index of each new position]}} and the unknown fields"""
    ra = {}
    for i, t in enumerate(ref['types']):
        if t['k'] == 'adt' and t.get('local'): ra.setdefault(t['path'], []).append(t)
    perm = {}
    for i, t in enumerate(code['types']):
        if t['k'] != 'adt' or not t.get('local') or t['path'] not in ra: continue
        rs = ra[t['path']]
        r = next((x for x in rs if x['s'] == t['s']), rs[0])
        if r['adt'] != t['adt']: continue
        for vi, v in enumerate(t['variants']):
            w = next((x for x in r['variants'] if x['name'] == v['name']), None)
            if w is None and len(t['variants']) == len(r['variants']) == 1: w = r['variants'][0]
            if w is None: continue
            cf = [(n, code['types'][f]['s']) for n, f in v['fields']]
            rf = [(n, ref['types'][f]['s']) for n, f in w['fields']]
            if [n for n, _ in cf] == [n for n, _ in rf]: continue
            tuple_like = all(n.isdigit() for n, _ in cf + rf)
            pos = {}                        # reference position -> code position
            free = list(range(len(cf)))
            if not tuple_like:
                for k, (n, _) in enumerate(rf):
                    j = next((j for j in free if cf[j][0] == n), None)
                    if j is not None: pos[k] = j; free.remove(j)
            for k, (_, ty) in enumerate(rf):
                if k in pos: continue
                c = [j for j in free if cf[j][1] == ty]
                if len(c) >= 1: pos[k] = c[0]; free.remove(c[0])
            rest = [k for k in range(len(rf)) if k not in pos]
            if len(rest) == len(free):
                for k, j in zip(rest, list(free)): pos[k] = j
                free = []
            if len(pos) != len(rf): continue          # the reference knows a field the code lost
            new = [pos[k] for k in range(len(rf))] + free
            perm.setdefault(i, {})[vi] = (new, [rf[k][0] for k in range(len(rf))] + [cf[j][0] for j in free], [cf[j][0] for j in free])
    return perm


def reorder(d, perm):
    if not perm: return d
    T = d['types']
    d = dict(d, types=list(T))
    inv = {}
    for i, vs in perm.items():
        t = dict(T[i]); t['variants'] = [dict(v) for v in t['variants']]
        for vi, (new, names, extra) in vs.items():
            f = T[i]['variants'][vi]['fields']
            t['variants'][vi]['fields'] = [[n, f[j][1]] for n, j in zip(names, new)]
            if extra: t['variants'][vi]['extra'] = extra
            inv[(i, vi)] = {j: k for k, j in enumerate(new)}
        d['types'][i] = t

    def const(c, ty):
        if not isinstance(c, dict): return c
        t = T[ty]; c = dict(c)
        if isinstance(c.get('v'), dict): c['v'] = const(c['v'], t.get('to', ty))
        if isinstance(c.get('f'), list):
            if t['k'] == 'adt':
                vi = c.get('var', 0)
                c['f'] = [const(x, f) for x, (_, f) in zip(c['f'], t['variants'][vi]['fields'])]
                if vi in perm.get(ty, {}): c['f'] = [c['f'][j] for j in perm[ty][vi][0]]
            elif t['k'] == 'tuple': c['f'] = [const(x, f) for x, f in zip(c['f'], t['fields'])]
            elif isinstance(t.get('to'), int): c['f'] = [const(x, t['to']) for x in c['f']]
        return c

    def place(p, loc):
        out = [p[0]]; ty = loc[p[0]]; var = 0
        for e in p[1:]:
            if isinstance(e, list) and e[0] == 'f':
                k = e[1]
                if ty is not None and (ty, var) in inv: k = inv[(ty, var)].get(k, k)
                out.append(['f', k, e[2]]); ty = e[2]; var = 0
                continue
            out.append(e)
            if isinstance(e, list) and e[0] == 'd': var = e[1]; continue
            var = 0
            if e == '*': ty = T[ty].get('to') if ty is not None else None
            elif isinstance(e, list) and e[0] in ('i', 'ci'): ty = T[ty].get('to') if ty is not None else None
            elif isinstance(e, list) and e[0] == 'sub': pass
            else: ty = None
        return out

    def op(o, loc):
        if o[0] in ('c', 'm'): return [o[0], place(o[1], loc)]
        if o[0] == 'k': return ['k', o[1], const(o[2], o[1])] + o[3:]
        return o

    def rv(r, loc):
        k = r[0]
        if k == 'use': return [k, op(r[1], loc)] + r[2:]
        if k in ('ref', 'rawptr'): return [k, r[1], place(r[2], loc)] + r[3:]
        if k == 'bin': return [k, r[1], op(r[2], loc), op(r[3], loc)] + r[4:]
        if k in ('un', 'cast'): return [k, r[1], op(r[2], loc)] + r[3:]
        if k == 'discr': return [k, place(r[1], loc)] + r[2:]
        if k == 'repeat': return [k, op(r[1], loc)] + r[2:]
        if k == 'agg':
            fs = [op(o, loc) for o in r[3]]
            a = r[1]
            if isinstance(a, list) and a[0] == 'adt' and a[2] is None and a[1] in perm.get(r[2], {}):
                fs = [fs[j] for j in perm[r[2]][a[1]][0]]
            return [k, a, r[2], fs] + r[4:]
        return r
    fns = []
    for f in d['fns']:
        b = f['body']
        if b:
            loc = b['locals']
            blocks = []
            for bb in b['blocks']:
                if bb is None: blocks.append(None); continue
                ss = []
                for s in bb['s']:
                    if s[0] == '=': s = ['=', place(s[1], loc), rv(s[2], loc)] + s[3:]
                    elif s[0] == 'setd': s = ['setd', place(s[1], loc)] + s[2:]
                    elif s[0] == 'assume': s = ['assume', op(s[1], loc)] + s[2:]
                    ss.append(s)
                t = bb['t']
                if t[0] == 'switch': t = [t[0], op(t[1], loc)] + t[2:]
                elif t[0] == 'drop': t = [t[0], place(t[1], loc)] + t[2:]
                elif t[0] == 'assert': t = [t[0], op(t[1], loc), t[2], t[3], [op(o, loc) for o in t[4]]] + t[5:]
                elif t[0] == 'call':
                    c = t[1]
                    if c[0] == 'ind': c = ['ind', op(c[1], loc)]
                    t = [t[0], c, [op(o, loc) for o in t[2]], place(t[3], loc)] + t[4:]
                blocks.append(dict(bb, s=ss, t=t))
            f = dict(f, body=dict(b, blocks=blocks))
        fns.append(f)
    d['fns'] = fns
    ts = {t['s']: i for i, t in enumerate(T)}
    d['consts'] = [dict(c, v=const(c['v'], ts[c['ty']])) if c['ty'] in ts else c for c in d['consts']]
    return d


def variant_names(code, ref):
    """variants of an enum that were renamed in place get the reference's names"""
    ra = {}
    for t in ref['types']:
        if t['k'] == 'adt' and t.get('local') and t['adt'] == 'enum': ra.setdefault(t['path'], t)
    T = list(code['types'])
    for i, t in enumerate(T):
        r = ra.get(t.get('path')) if t['k'] == 'adt' and t.get('local') and t['adt'] == 'enum' else None
        if r is None or len(r['variants']) != len(t['variants']): continue
        cn = [v['name'] for v in t['variants']]; rn = [v['name'] for v in r['variants']]
        if cn == rn: continue
        # only where every other variant is in its place
        if any(a != b and (a in rn or b in cn or len(v['fields']) != len(w['fields']) or v['discr'] != w['discr'])
               for a, b, v, w in zip(cn, rn, t['variants'], r['variants'])): continue
        T[i] = dict(t, variants=[dict(v, name=b) for v, b in zip(t['variants'], rn)])
    return dict(code, types=T)


def canonical(code, ref):
    code = apply_renames(code, renames(code, ref))
    code = variant_names(code, ref)
    return reorder(code, orders(code, ref))
