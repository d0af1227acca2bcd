#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from a description file and report whether it counts and which check catches it.
usage: newbug.py FILE...      FILE: @id @prop @needs @what lines, @edit FILE blocks (<<<< old ==== new >>>>), @demo to the end
       newbug.py --verify [ID...]   test the existing ones again"""
import sys, os, re, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); BASE = 'ffba7f1'
RP = os.environ.get('VP_REPO', '/repo'); VP = os.environ.get('VP_DIR', '/opt/vp')   # another tree and its build scripts
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(f):
    t = open(f).read(); head, demo = t.split('\n@demo\n', 1); d = dict(re.findall(r'^@(id|prop|needs|what) (.*)$', head, re.M))
    w = tempfile.mkdtemp(); sh(f'cp -a {RP} {w}/r')
    for fn, old, new in re.findall(r'^@edit (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', head, re.M | re.S):
        p = f'{w}/r/{fn}'; s = open(p).read()
        if s.count(old) != 1: sys.exit(f'{f}: {fn}: old text found {s.count(old)} times:\n{old}')
        open(p, 'w').write(s.replace(old, new))
    o = f'{V}/seeded/{d["id"]}'; os.makedirs(o, exist_ok=True)
    open(f'{o}/patch.diff', 'w').write(subprocess.run(['git', '-C', f'{w}/r', 'diff'], stdout=subprocess.PIPE, text=True).stdout); shutil.rmtree(w)
    open(f'{o}/demo.c', 'w').write('#include "demo_sim.h"\n' + demo)
    for x in ('demo.sh', 'demo_sim.h'): shutil.copy(f'{V}/tools/demo/{x}', o)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['what']}, open(f'{o}/meta.json', 'w'), indent=1)
    return d['id']
def verify(i):
    o = f'{V}/seeded/{i}'; prop = json.load(open(f'{o}/meta.json'))['property']; msg = []
    if sh(f'git -C {RP} status --short --untracked-files=no').stdout.strip(): sys.exit('not clean')
    # removed lines must be original
    cur = None; orig = fixl = 0
    for l in open(f'{o}/patch.diff'):
        m = re.match(r'--- a/(\S+)', l)
        if m: cur = m[1]; bl = sh(f'git -C {RP} blame -s {cur}').stdout.split('\n'); continue
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m[1]); continue
        if l.startswith('-'): (orig, fixl) = (orig + 1, fixl) if bl[n-1].lstrip('^').startswith(BASE[:6]) else (orig, fixl + 1); n += 1
        elif l.startswith(' '): n += 1
    if not orig: msg.append('NO-ORIGINAL-LINE')
    if fixl: msg.append(f'({fixl} fix lines)')
    r = sh(f'bash {o}/demo.sh', cwd=RP)
    if r.returncode: msg.append('DEMO-FAILS-UNPATCHED ' + r.stdout[-500:])
    try:
        a = sh(f'git -C {RP} apply {o}/patch.diff')
        if a.returncode: return i, prop, msg + ['NO-APPLY ' + a.stdout]
        b = sh(f'bash {VP}/build.sh')
        if b.returncode: return i, prop, msg + ['NO-BUILD ' + b.stdout[-800:]]
        t = sh(f'bash {VP}/test.sh /tmp/seedtest.json'); res = json.load(open('/tmp/seedtest.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        txt = json.dumps(res); fl = [x for x in (res.get('failed') or [])]
        if fl: msg.append('TESTS-FAIL ' + str(fl))
        r = sh(f'bash {o}/demo.sh', cwd=RP)
        msg.append(f'demo={r.returncode} [{r.stdout.strip().splitlines()[-1][:90] if r.stdout.strip() else ""}]' if r.returncode else 'DEMO-PASSES-PATCHED')
        c = sh(f'python3 {V}/check.py {prop} --tier quick')
        v = [x for x in c.stdout.splitlines() if x.startswith('VIOLATION')]
        msg.append(('CAUGHT ' + '; '.join(v)[:150]) if c.returncode == 1 and any(f'property={prop}' in x for x in v) else f'*** MISSED rc={c.returncode} ' + c.stdout[-300:])
    finally:
        sh(f'git -C {RP} checkout -- .')
    return i, prop, msg
ids = []
if sys.argv[1] == '--verify': ids = sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))
else: ids = [make(f) for f in sys.argv[1:]]
for i in ids: print(*verify(i), flush=True)
sh(f'bash {VP}/build.sh')
