"""Turn a spec of textual replacements into patch files (for refactorings used to
test that the checks stay quiet).  Usage: mkpatch.py SPEC.py OUTDIR [IDS]"""
import difflib, os, sys
SPECS = []
def R(id, *edits):
    """edits: (file, old, new) triples; old must occur exactly once (or use (file, old, new, n) for all n)."""
    SPECS.append((id, edits))
def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), {'R': R})
    out, ids = sys.argv[2], sys.argv[3:]
    os.makedirs(out, exist_ok=True)
    for id, edits in SPECS:
        if ids and id not in ids: continue
        cur = {}
        ok = True
        for e in edits:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 1
            p = '/repo/' + f
            if f not in cur: cur[f] = open(p).read() if os.path.exists(p) else ''
            if old == '$EOF': cur[f] += new; continue
            if cur[f].count(old) != n:
                print(id, 'occurs', cur[f].count(old), 'times:', old[:60].replace('\n', '|')); ok = False; break
            cur[f] = cur[f].replace(old, new)
        if not ok: continue
        t = ''
        for f, c in cur.items():
            a = open('/repo/' + f).read().splitlines(True)
            t += ''.join(difflib.unified_diff(a, c.splitlines(True), 'a/' + f, 'b/' + f))
        open(os.path.join(out, id + '.patch'), 'w').write(t)
main()
