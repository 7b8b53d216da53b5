#!/usr/bin/env python3
"""usage: check.py PROPERTY   -- decides one property on the current tree of /repo."""
import glob
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sg'))
sys.path.insert(0, os.path.join(HERE, 'sg', 'props'))
sys.setrecursionlimit(50000)
import threading
threading.stack_size(512 * 1024 * 1024)


def analyse(c, f):
    with c.part('remaining obligations'):
        f(c)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    import dump
    import check
    import base
    for f in sorted(glob.glob(os.path.join(HERE, 'sg', 'props', '*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    if len(sys.argv) > 2:
        ds = [json.load(open(f)) for f in sorted(glob.glob(sys.argv[2] + '/*.json')) if 'build_script' not in f]
    else:
        ds = dump.dump()
    c = check.Check(pid, check.Prog(ds), tier, seed)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    t = threading.Thread(target=analyse, args=(c, base.PROPS[pid]), daemon=True)
    t.start()
    t.join(float(os.environ.get('SG_BUDGET', '700')))
    if t.is_alive():
        c.obs = list(c.obs)
        c.undecided('remaining obligations', 'time budget used up')
    e = c.finish(t0, 'other', None)
    ed = os.path.join(HERE, 'work', 'ev') if os.environ.get('SG_NOEV') else os.path.join(HERE, 'evidence')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    for o in c.obs:
        print('%-10s %s%s' % (o['status'], o['obligation'], ' [%s]' % o['by'] if 'by' in o else (' (%s)' % o['why'] if 'why' in o else '')))
    for k in c.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if c.viols:
        rd = os.path.join(ed, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.json')
        with open(rp, 'w') as f:
            json.dump(c.viols, f, indent=1)
        for v in c.viols:
            print('%s: %s at %s' % (v['key'], v['what'], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def guarded(out):
    try:
        out.append(main())
    except Exception:
        traceback.print_exc()
        out.append(2)


if __name__ == '__main__':
    out = []
    t = threading.Thread(target=guarded, args=(out,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
