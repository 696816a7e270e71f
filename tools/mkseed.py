#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a list of source edits (development tool, used by no check).

mkseed.py SPEC.py [ID...]: SPEC defines SEEDS, a list of dicts
  id, prop, file, edits [(old,new)...] (each old must occur exactly once), cases [(flags,input)...],
  needs, breaks, and optionally main (the text of a main.rs of its own).
The expected results of the cases are taken from the unchanged tree.
"""
import json, os, shutil, subprocess, sys
SCR = '/tmp/mkseed'
DEMO = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: does not. Run with cwd = the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
scr=$(mktemp -d); trap '/bin/rm -rf "$scr"' EXIT
mkdir -p "$scr/demo/src"
cp "$here/main.rs" "$scr/demo/src/main.rs"
cp "$repo/Cargo.lock" "$scr/demo/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\nundname = { path = "%s" }\\n[workspace]\\n' "$repo" > "$scr/demo/Cargo.toml"
cd "$scr/demo" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$scr/target" RUSTC_WRAPPER=
cargo build --offline -q >"$scr/log" 2>&1 || { tail -20 "$scr/log"; exit 3; }
ulimit -c 0
timeout 60 "$scr/target/debug/demo"
'''
MAIN = '''// (flags, input, expected text; None: an error is expected)
const CASES: &[(u16, &str, Option<&str>)] = &[
%s];

fn main() {
    let mut bad = 0;
    for &(flags, input, expected) in CASES {
        let flags = undname::Flags::from_bits_truncate(flags);
        let got = undname::demangle(input, flags).ok();
        if got.as_deref() != expected {
            println!("{flags:?} {input}\\n  expected {expected:?}\\n  got      {got:?}");
            bad += 1;
        }
    }
    std::process::exit(i32::from(bad != 0));
}
'''
def rs(s):
    return json.dumps(s, ensure_ascii=False).replace('\\u', '\\u') if '\\u' not in json.dumps(s) or True else s
def rlit(s):
    n = 1
    while '"' + '#' * n in s: n += 1
    return 'r' + '#' * n + '"' + s + '"' + '#' * n
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def oracle():
    d = SCR + '/oracle'
    os.makedirs(d + '/src', exist_ok=True)
    open(d + '/Cargo.toml', 'w').write('[package]\nname="oracle"\nversion="0.0.0"\nedition="2021"\n[dependencies]\nundname={path="/repo"}\n[workspace]\n')
    shutil.copy('/repo/Cargo.lock', d + '/Cargo.lock')
    open(d + '/src/main.rs', 'w').write('''use std::io::BufRead;
fn main(){ for l in std::io::stdin().lock().lines(){ let l=l.unwrap(); let (f,s)=l.split_once(' ').unwrap();
 match undname::demangle(s, undname::Flags::from_bits_truncate(f.parse().unwrap())){Ok(x)=>println!("O{}",x.replace('\\n',"\\u{0}")),Err(_)=>println!("E")} } }''')
    r = sh('cargo build --offline -q', cwd=d, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    assert r.returncode == 0, r.stderr
    return d + '/target/debug/oracle'
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    seeds = g['SEEDS']; want = set(sys.argv[2:])
    exe = oracle()
    for s in seeds:
        if want and s['id'] not in want: continue
        out = '/verif/seeded/' + s['id']
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        w = SCR + '/w'
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        sh('git -C /repo archive HEAD | tar x -C ' + w)
        sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x', cwd=w)
        ok = True
        edits = s['edits'] if isinstance(s['edits'][0], (tuple, list)) and len(s['edits'][0]) == 3 else [(s['file'],) + tuple(e) for e in s['edits']]
        for f, a, b in edits:
            t = open(w + '/' + f).read()
            if t.count(a) != 1:
                print(s['id'], 'EDIT MATCHES', t.count(a), repr(a[:80])); ok = False; break
            open(w + '/' + f, 'w').write(t.replace(a, b))
        if not ok: shutil.rmtree(out); continue
        open(out + '/patch.diff', 'w').write(sh('git diff', cwd=w).stdout)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        if 'main' in s:
            open(out + '/main.rs', 'w').write(s['main'])
        else:
            inp = ''.join('%d %s\n' % c for c in s['cases'])
            r = subprocess.run([exe], input=inp.encode(), capture_output=True)
            res = r.stdout.decode().split('\n')[:-1]
            assert len(res) == len(s['cases']), (s['id'], r.stderr[-300:])
            body = ''
            for (f, i), e in zip(s['cases'], res):
                e = None if e == 'E' else e[1:].replace('\0', '\n')
                body += '    (%d, %s, %s),\n' % (f, rlit(i), 'None' if e is None else 'Some(%s)' % rlit(e))
                print('  ', s['id'], f, i[:80], '=>', repr(e)[:160])
            open(out + '/main.rs', 'w').write(MAIN % body)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
main()
