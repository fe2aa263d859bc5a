"""seed.py DEF.py [...]: make /verif/seeded/<id>/ from a definition and confirm it (development aid; no check uses it).
A definition sets: id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ source)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'
R = os.environ.get('SEED_REPO', '/repo')
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
g++ -std=c++14 -O1 %s -I src -I tests -I "$here" -I /usr/include/eigen3 "$here/demo.cpp" -o "$out/demo" -lpthread || exit 3
timeout 200 "$out/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(path, check=True):
    d = {}; exec(open(path).read(), d)
    sid, dst = d['id'], f"{V}/seeded/{d['id']}"
    shutil.rmtree(SR, ignore_errors=True)
    sh(f'git clone -q {R} {SR}')
    for f, old, new in d['edits']:
        s = open(f'{SR}/{f}').read()
        if s.count(old) != 1: print(sid, 'EDIT matches', s.count(old), repr(old)); return
        open(f'{SR}/{f}', 'w').write(s.replace(old, new))
    os.makedirs(dst, exist_ok=True)
    open(f'{dst}/patch.diff', 'w').write(sh(f'git -C {SR} diff').stdout)
    for name, src in d.get('files', {}).items():
        os.makedirs(os.path.dirname(f'{dst}/{name}'), exist_ok=True); shutil.copy(src if src[0] == '/' else f'{V}/{src}', f'{dst}/{name}')
    open(f'{dst}/demo.cpp', 'w').write(d['demo'])
    open(f'{dst}/demo.sh', 'w').write(DEMO % d.get('flags', ''))
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{dst}/meta.json', 'w'), indent=1)
    a = sh(f'bash {dst}/demo.sh', cwd=R); b = sh(f'bash {dst}/demo.sh', cwd=SR)
    print(f"{sid}: clean demo rc={a.returncode} {a.stdout[-300:]}{a.stderr[-1500:] if a.returncode else ''}\n   patched rc={b.returncode} {b.stdout[-300:]}{b.stderr[-300:]}", flush=True)
    if a.returncode or not b.returncode or b.returncode == 3: print('   BAD DEMO'); shutil.rmtree(dst); return
    b = open('/opt/vp/build.sh').read().replace('cd /repo', f'cd {SR}'); open(f'{SR}/.b.sh', 'w').write(b)
    t = open('/opt/vp/test.sh').read().replace('/repo', SR).replace('bash /opt/vp/build.sh', f'bash {SR}/.b.sh'); open(f'{SR}/.t.sh', 'w').write(t)
    base = json.load(open('/opt/vp/BASELINE.json')); base = base.get('stable', base)
    sh(f'bash {SR}/.t.sh {SR}/o.json')
    miss = [x for x in base if x not in json.load(open(f'{SR}/o.json'))['passed']] if os.path.exists(f'{SR}/o.json') else base
    print('   tests failing:', miss, flush=True)
    if miss: print('   BAD TESTS'); shutil.rmtree(dst); return
    if check:
        for p in [d['prop']] + d.get('also', []):
            t0 = time.time(); c = sh(f'VERIF_REPO={SR} VERIF_SEED=1 VERIF_TIER=quick python3 {V}/run_check.py {p}', cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print(f'   {p}: rc={c.returncode} {time.time()-t0:.0f}s', *(v[:2] or c.stdout.splitlines()[-3:]), sep='\n      ', flush=True)
check = '--nocheck' not in sys.argv
for p in sys.argv[1:]:
    if p != '--nocheck': one(p, check)
shutil.rmtree(SR, ignore_errors=True)
