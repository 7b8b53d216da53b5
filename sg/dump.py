"""Type-checks /repo's current tree through the driver and loads the dumped programs."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SG_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
WORK = os.path.join(VERIF, 'work')
NT = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu'
EXPECT = ['lib-scalable_mpc.json', 'bin-garble.json', 'bin-preproc.json', 'bin-preproc_size.json']


class DumpError(Exception):
    pass


def env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    e = dict(x.split('=', 1) for x in out.decode().split('\0') if '=' in x)
    for k in ('VERIF_SEED', 'VERIF_TIER'):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise DumpError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))


def driver():
    exe = os.path.join(TARGET, 'driver', 'release', 'sgdump')
    e = env()
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'driver')
    e.pop('RUSTFLAGS', None)
    run(['cargo', 'build', '--release', '--offline'], os.path.join(VERIF, 'driver'), e)
    return exe


def locked(f):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return f()


def dump(release=False):
    """Returns the parsed dumps of the library and the programs of the current tree."""
    def go():
        exe = driver()
        os.makedirs(WORK, exist_ok=True)
        out = tempfile.mkdtemp(prefix='dump-', dir=WORK)
        try:
            e = env()
            e.pop('RUSTUP_TOOLCHAIN', None)
            e['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'ws')
            run(['cargo', 'clean', '-p', 'scalable_mpc', '--offline'] + (['--release'] if release else []), REPO, e)
            e.update({'RUSTFLAGS': '-Zallow-features=none', 'RUSTC': NT + '/bin/rustc',
                      'LD_LIBRARY_PATH': NT + '/lib', 'RUSTC_WORKSPACE_WRAPPER': exe, 'SGDUMP_OUT': out})
            run(['cargo', 'check', '--lib', '--bins', '--offline', '--locked'] + (['--release'] if release else []), REPO, e)
            res = []
            for f in EXPECT:
                p = os.path.join(out, f)
                if not os.path.exists(p):
                    raise DumpError('no dump of %s' % f)
            for p in sorted(glob.glob(os.path.join(out, '*.json'))):
                if 'build_script' in p:
                    continue
                with open(p) as fh:
                    res.append(json.load(fh))
            return res
        finally:
            shutil.rmtree(out, ignore_errors=True)
    return locked(go)


if __name__ == '__main__':
    ds = dump()
    dump(release=True)
    print('analysed', [(d['crate'], len(d['bodies'])) for d in ds])
