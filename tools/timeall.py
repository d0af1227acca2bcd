#!/usr/bin/env python3
"""timeall.py [regex]: seconds, states and executions of every configuration as the quick tier runs it (binaries in /tmp/b)"""
import sys, re, json, subprocess, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif'); import check
rx = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.*')
def run(c):
    a = ['--maxdepth', c['opt']['d']] if 'd' in c['opt'] else []
    p = subprocess.run([f"/tmp/b/rmcmc_{c['bin']}", '--spec', c['spec'], '--prop', 'ANY', '--known', 'KF1,KF2,KF3', '--time', '150'] + a, capture_output=True, text=True)
    m = re.search(r'^STATS (\{.*\})$', p.stdout, re.M); s = json.loads(m[1])
    return s['wall'], c['name'], s['states'], s['exhaustive']
with ThreadPoolExecutor(8) as ex: r = sorted(ex.map(run, [c for c in check.load_configs() if rx.fullmatch(c['name'])]), reverse=True)
print('total', sum(x[0] for x in r)); print('\n'.join(f'{n} {w} st {s} {"EXH" if e else "bounded"}' for w, n, s, e in r[:60]))
