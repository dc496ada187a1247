#!/usr/bin/env python3
"""Plants the bugs described in spec files: writes seeded/<id>, confirms it and runs its check.
usage: plant.py SPEC.py [ID...]   (works in the scratch copies /tmp/mt, see tools/mt)"""
import json, os, subprocess, sys, shutil, re
REPO = '/tmp/mt/repo'; OUT = '/verif/seeded'; KIT = '/verif/tools/seedkit'
seeds = []
def S(id, prop, needs, what, edits, main):
    seeds.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, main=main))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
def sh(cmd, cwd=REPO, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr
base = {}
def baselines(f):
    if f not in base:
        base[f] = set(l.strip() for l in subprocess.run(['git', '-C', '/repo', 'show', 'e5dff95:' + f], capture_output=True, text=True).stdout.splitlines())
    return base[f]
for s in seeds:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- . ; git clean -fdq src')
    ok = True
    for f, old, new in s['edits']:
        p = os.path.join(REPO, 'src', f); t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], 'EDIT does not match once:', f, t.count(old), repr(old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    rc, diff = sh('git diff')
    f = None; orig = 0; notorig = []
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() in baselines(f): orig += 1
            else: notorig.append(l)
    if notorig: print(s['id'], 'lines not original:', notorig)
    if not orig: print(s['id'], 'NO ORIGINAL LINE CHANGED'); continue
    d = os.path.join(OUT, s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write('mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n' + s['main'])
    for x in os.listdir(KIT): shutil.copy(KIT + '/' + x, d)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1')
    passed = sum(int(x) for x in re.findall(r'(\d+) passed', o)); failed = sum(int(x) for x in re.findall(r'(\d+) failed', o))
    if rc or passed != 29: print(s['id'], 'TESTS', rc, passed, failed, '' if passed else o[-1500:])
    r1, o1 = sh('bash %s/demo.sh' % d, cwd='/repo')
    r2, o2 = sh('bash %s/demo.sh' % d)
    if r1: print(s['id'], 'DEMO fails unpatched', r1, o1[-1500:])
    if not r2 or r2 == 99: print(s['id'], 'DEMO patched rc', r2, o2[-800:])
    rc, o = sh('/tmp/mt/run.sh ' + s['prop'])
    print(s['id'], 'tests', passed, 'demo', r1, r2, '|', o.strip()[:400], flush=True)
    sh('git checkout -q -- .')
