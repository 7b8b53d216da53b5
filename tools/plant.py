"""plant(id, property, [(file, old, new)...], demo, needs, breaks): writes seeded/<id> from edits to a scratch copy."""
import json
import os
import shutil
import subprocess
S = os.environ.get('SCRATCH', '/tmp/s/repo')


def plant(i, prop, edits, demo, needs, breaks, limit=None, script=None):
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new in edits:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', S, 'diff'], capture_output=True, text=True, check=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if script:
        open(d + '/demo.sh', 'w').write(script)
    else:
        t = open('/verif/tools/demo.sh').read()
        if limit:
            t = t.replace(':-120', ':-%d' % limit)
        open(d + '/demo.sh', 'w').write(t)
        open(d + '/demo.rs', 'w').write(demo)
    subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'], check=True)
