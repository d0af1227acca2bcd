#!/usr/bin/env python3
"""runall.py [regex] [seconds]: run configurations with --prop ANY (every failed property cuts its branch and is counted); print anomalies and the slow or truncated ones."""
import sys, re, json, subprocess, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif')
B = os.environ.get('B', '/tmp/b'); rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.*'); T = sys.argv[2] if len(sys.argv) > 2 else '15'
cf = os.environ.get('CF', '/verif/mc/configs.txt')
def run(l):
    f = l.split('|'); n, b, spec = f[0], f[1], f[4]
    p = subprocess.run([f'{B}/rmcmc_{b}', '--spec', spec, '--prop', 'ANY', '--known', 'KF1,KF2,KF3', '--auto', '300000', '--time', T, '--replay-out', f'/tmp/cal/{n}.rep'], capture_output=True, text=True, errors='replace', env=dict(os.environ, VP_SHOWCUT='1'))
    open(f'/tmp/cal/{n}.out', 'w').write(p.stdout + p.stderr)
    m = re.search(r'^STATS (\{.*\})$', p.stdout, re.M)
    if not m: return f'{n}: rc={p.returncode} ' + (p.stdout + p.stderr)[:300]
    s = json.loads(m[1]); c = {k: v for k, v in s['counts'].items() if k.startswith('cut:')}
    return f"{n}: st {s['states']} tr {s['transitions']} te {s['terminals']} " + ('EXH' if s['exhaustive'] else f"dc{s['depth_complete']}") + f" {s['wall']}s" + (' CUT ' + json.dumps(c) if c else '')
ls = [l.strip() for l in open(cf) if l.strip() and not l.startswith('#') and rx.fullmatch(l.split('|')[0])]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(run, ls):
        if os.environ.get('V') or 'CUT' in r or 'rc=' in r or 'EXH' not in r: print(r, flush=True)
