"""sweep.py [-a] [ID...]: runs the checks against dumps of planted bugs under /tmp/w/bd (-a: all checks, else the bug's property)."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
allc = '-a' in sys.argv
ids = [x for x in sys.argv[1:] if x != '-a'] or sorted(os.listdir('/verif/seeded'))
m = json.load(open('/verif/MANIFEST.json'))
checks = [c['property'] for c in m['checks']]
env = dict(os.environ, SG_NOEV='1')
jobs = []
for i in ids:
    p = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
    for c in (checks if allc else [p]):
        if c in checks:
            jobs.append((i, p, c))
        else:
            print(i, p, 'no check')


def run(j):
    i, p, c = j
    r = subprocess.run(['python3', '/verif/check.py', c, '/tmp/w/bd/' + i], capture_output=True, text=True, env=env)
    return r.returncode, r.stdout, r.stderr


with ThreadPoolExecutor(7) as ex:
    for (i, p, c), (rc, out, err) in zip(jobs, ex.map(run, jobs)):
        und = [l for l in out.split('\n') if l.startswith('undecided')]
        if p == c or rc != 0 or und:
            print('%-24s %s %s rc=%d %s %s' % (i, p, c, rc, 'CAUGHT' if rc == 1 else ('MISSED' if p == c else ''), und[:2] if rc != 1 else [l for l in out.split('\n') if ' at ' in l][:2]), err[-300:] if rc not in (0, 1) else '')
