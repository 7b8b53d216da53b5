"""Debug-only code (C43): comparison of the debug and the release program, effects of the difference."""
import difflib
import json
import multiprocessing
import os
import re
import sys
import threading
import check
import dump
from base import *
from interp import Prog, strip

SKIP = {'t', 'at', 'id', 'ga', 'res', 'adj', '_tys', 'tys', 'ins', 'out', 'self_ty', 'mac', 'line', 'def', 'cid'}
# library calls that change or observe something outside their arguments
EFFECT = re.compile('|'.join([
    r'^tokio::sync::(mpsc|oneshot|broadcast|watch)\b.*::(send|try_send|send_\w+|recv|recv_many|try_recv|poll_recv|close|reserve|permit|blocking_\w+)$',
    r'^tokio::(net|fs|io)::', r'^std::net::', r'^std::sync::mpsc\b.*::(send|try_send|recv\w*|try_recv)$',
    r'^std::fs::(write|create\w*|remove\w*|rename|copy|set_permissions|File::create\w*|OpenOptions)',
    r'^std::process::(exit|abort|Command)', r'^std::env::(set_var|remove_var|set_current_dir)',
    r'^(rand|rand_core|rand_chacha|getrandom)::',
    r'^(std|core)::sync::atomic::.*::(store|swap|fetch_\w+|compare_\w+)$',
    r'^(std|core)::cell::\w*Cell\b.*::(set|replace|replace_with|swap|take|borrow_mut|try_borrow_mut|get_or_init|get_or_try_init|update)$',
    r'^std::sync::(OnceLock|LazyLock|Once)\b.*::(set|get_or_init|get_or_try_init|call_once\w*|take)$',
    r'^(std|core)::ptr::(write\w*|swap|replace|copy\w*)$', r'^(std|core)::mem::forget$',
]))
GUARD = re.compile(r'\b(MutexGuard|RwLockWriteGuard|OwnedMutexGuard|OwnedRwLockWriteGuard|RefMut)<')
MUTRECV = re.compile(r'^&(\'\w+ )?mut ')


def kids(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x


def walk(n):
    yield n
    for _, x in kids(n):
        yield from walk(x)


def const(n):
    """Value of a condition that depends on the build mode only."""
    if n['k'] == 'Lit' and n.get('lk') == 'bool':
        return n['v']
    if n['k'] == 'Un' and n['op'] == '!':
        v = const(n['e'])
        return None if v is None else not v
    if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
        a, b = const(n['l']), const(n['rh'])
        if n['op'] == '&&':
            return False if a is False else b if a is True else None
        return True if a is True else b if a is False else None
    if n['k'] == 'Block' and not n['st'] and n.get('e'):
        return const(n['e'])
    return None


def bound(n):
    return {x['id'] for x in walk(n) if x.get('k') == 'Bind'}


def used(n):
    return {x['id'] for x in walk(n) if x.get('k') == 'Path' and x.get('r') == 'local'}


def names(n):
    return {x['n'] for x in walk(n) if x.get('k') == 'Bind'}


class Diff:
    """Regions of a body present in one of the two builds only."""
    def __init__(self):
        self.debug = []
        self.release = []
        self.values = []

    def cmp(self, d, r):
        if isinstance(d, dict) and isinstance(r, dict):
            if d.get('k') != r.get('k'):
                return self.value(d, r)
            if d.get('k') == 'If':
                a, b = const(d['c']), const(r['c'])
                if a is not None and b is not None and a != b:
                    td, tr = (d['th'], r.get('el')) if a else (d.get('el'), r['th'])
                    if d.get('el') is not None and td is not None and self.produces(td):
                        return self.value(td, tr)
                    if td is not None:
                        self.debug.append(td)
                    if tr is not None:
                        self.release.append(tr)
                    return
                if (a is None) != (b is None) and d.get('el') is None:
                    # the condition combines the build mode with something else
                    if a is False:
                        self.release.append(r)
                    elif b is False:
                        self.debug.append(d)
                    else:
                        self.value(d, r)
                    return
            if d.get('k') == 'Block':
                return self.block(d, r)
            ks = (set(d) | set(r)) - SKIP
            if d.get('k') == 'Path' and d.get('r') != r.get('r') or strip(str(d.get('def'))) != strip(str(r.get('def'))):
                return self.value(d, r)
            for k in sorted(ks):
                if k in ('ln', 'col') or k == 'st' and isinstance(d[k], int):
                    continue
                if (k in d) != (k in r):
                    return self.value(d, r)
                if isinstance(d[k], (dict, list)):
                    if isinstance(d[k], list) and len(d[k]) != len(r[k]):
                        return self.value(d, r)
                    self.cmp(d[k], r[k])
                elif d[k] != r[k]:
                    return self.value(d, r)
        elif isinstance(d, list) and isinstance(r, list):
            for x, y in zip(d, r):
                self.cmp(x, y)
        elif d != r:
            self.values.append((d, r))

    def produces(self, n):
        return n['k'] != 'Block' or n.get('e') is not None

    def value(self, d, r):
        self.values.append((d, r))

    def block(self, d, r):
        key = lambda s: (s['k'], self.where(s))
        ds, rs = list(d['st']), list(r['st'])
        de, re_ = d.get('e'), r.get('e')
        if de is not None and re_ is not None:
            pass
        elif de is not None or re_ is not None:
            # the final expression may have become a statement
            if de is not None:
                ds.append(de)
            else:
                rs.append(re_)
            de = re_ = None
        m = difflib.SequenceMatcher(None, [key(s) for s in ds], [key(s) for s in rs], autojunk=False)
        only_d, only_r = [], []
        pairs = []
        for tag, i1, i2, j1, j2 in m.get_opcodes():
            if tag == 'equal':
                pairs += list(zip(ds[i1:i2], rs[j1:j2]))
            else:
                only_d += ds[i1:i2]
                only_r += rs[j1:j2]
        nd = set().union(*[names(s) for s in only_d if s['k'] == 'SLet']) if only_d else set()
        nr = set().union(*[names(s) for s in only_r if s['k'] == 'SLet']) if only_r else set()
        both = nd & nr
        for s in only_d:
            if s['k'] == 'SLet' and names(s) & both:
                other = [x for x in only_r if x['k'] == 'SLet' and names(x) & names(s)]
                self.values.append((s, other[0]))
            elif s['k'] == 'SLet' and any(bound(s['p']) & used(a) for a in [a for a, _ in pairs] + ([de] if de else [])):
                self.values.append((s, None))
            else:
                self.debug.append(s)
        for s in only_r:
            if s['k'] == 'SLet' and names(s) & both:
                continue
            if s['k'] == 'SLet' and any(bound(s['p']) & used(b) for b in [b for _, b in pairs] + ([re_] if re_ else [])):
                self.values.append((s, None))
            else:
                self.release.append(s)
        for a, b in pairs:
            self.cmp(a, b)
        if de is not None:
            if key(de) != key(re_) and self.where(de) != self.where(re_):
                self.value(de, re_)
            else:
                self.cmp(de, re_)

    def where(self, s):
        if 'ln' in s:
            return (s['ln'], s.get('col'))
        for _, x in kids(s):
            w = self.where(x)
            if w:
                return w
        return None


class Effects:
    """What the code of a region changes or observes outside itself."""
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def ty(self, body, n, k='t'):
        return body['_tys'][n[k]] if k in n else ''

    def root(self, n):
        """The expression a place is part of."""
        while True:
            if n['k'] in ('Field', 'Index', 'Cast') or n['k'] == 'Un' and n['op'] == '*':
                n = n['e'] if 'e' in n else n['o'] if 'o' in n else n['s']
            elif n['k'] == 'Block' and not n['st'] and n.get('e'):
                n = n['e']
            elif n['k'] == 'Ref':
                n = n['e']
            elif n['k'] == 'MCall' and 'mut' in n['m'] and MUTRECV.match(self.ty(self.body, n['s'], 'at') or self.ty(self.body, n['s'])):
                n = n['s']
            else:
                return n

    def region(self, n, body, free=()):
        """[(what, node)] of the effects of a region; `free` are locals that exist in this build only."""
        self.body = body
        inner = bound(n) | set(free)
        out = []

        def outer(p):
            r = self.root(p)
            if r['k'] == 'Path' and r.get('r') == 'local':
                if r['id'] not in inner:
                    return r['n']
                if GUARD.search(self.ty(body, r)):
                    return r['n']
                return None
            if r['k'] == 'Path' and r.get('dk', '').startswith('Static'):
                return r.get('def')
            if GUARD.search(self.ty(body, r)):
                return 'locked data'
            return None

        def go(n, up):
            k = n.get('k')
            if k in ('Assign', 'AssignOp'):
                x = outer(n['l'])
                if x:
                    out.append(('assigns to `%s`' % x, n))
            if k == 'Ref' and n.get('mut'):
                x = outer(n['e'])
                if x:
                    out.append(('mutably borrows `%s`' % x, n))
            if 'refmut' in n.get('adj', '').split(',')[-1:]:
                x = outer(n)
                if x:
                    out.append(('modifies `%s`' % x, n))
            elif k == 'Path' and n.get('r') == 'local' and n['id'] not in inner and MUTRECV.match(self.ty(body, n)) and 'adj' not in n \
                    and not (up and (up['k'] in ('Field', 'Index') or up['k'] == 'Un' or up['k'] == 'Ref' and not up.get('mut') or up['k'] in ('Assign', 'AssignOp', 'Bin'))):
                out.append(('hands on the mutable reference `%s`' % n['n'], n))
            if k in ('Call', 'MCall', 'Path', 'Bin', 'Un', 'Index', 'AssignOp'):
                for d in self.callees(n):
                    e = self.fn(d)
                    self.body = body
                    if e:
                        out.append((e, n))
                        break
            for kk, x in kids(n):
                go(x, n if 'k' in n else up)
        go(n, None)
        return out

    def callees(self, n):
        for f in ('res', 'def'):
            if n.get(f):
                yield n[f]

    def fn(self, d):
        """An effect of calling a function beyond its mutable arguments, or None."""
        p = strip(d)
        b = self.prog.bodies.get(d) or self.prog.bypath.get(p)
        if b is None:
            return 'calls %s' % p if EFFECT.search(p) or p.startswith('scalable_mpc::') and self.foreign(p) else None
        if b['id'] in self.memo:
            return self.memo[b['id']]
        self.memo[b['id']] = None
        old = self.body
        self.body = b
        e = [w for w, n in self.region(b['body'], b, bound({'k': 'x', 'ps': b['params']})) if not w.startswith(('assigns', 'mutably', 'modifies', 'hands')) or 'locked data' in w]
        self.body = old
        if e:
            self.memo[b['id']] = e[0] if len(e[0]) > 150 else '%s (in %s)' % (e[0], p) if '(in ' not in e[0] else e[0]
        return self.memo[b['id']]

    def foreign(self, p):
        """C routines that set up shared tables."""
        return bool(re.search(r'::galois_(create|init|set)\w*$', p))


def compare(dbg, rel):
    """{body: Diff} of the bodies of two programs."""
    R = {(b['_crate'], b['id']): b for b in rel.all}
    D = {(b['_crate'], b['id']): b for b in dbg.all}
    out = []
    for k, b in D.items():
        if k in R:
            x = Diff()
            x.cmp(b['body'], R[k]['body'])
            x.cmp(b['params'], R[k]['params'])
            out.append((b, R[k], x))
    return out, [D[k] for k in D if k not in R], [R[k] for k in R if k not in D]


def line(body, n):
    for x in walk(n):
        if x.get('ln', 0) > 1:
            return '%s:%d (%s)' % (body['file'], x['ln'], body['path'])
    return '%s (%s)' % (body['file'], body['path'])


def one(arg):
    """Violations of one other property on one of the two programs."""
    pid, which, seed = arg
    out = []

    def go():
        c = check.Check(pid, BUILDS[which], 'quick', seed)
        with c.part('all'):
            PROPS[pid](c)
        out.extend(v['key'] for v in c.viols)
    sys.setrecursionlimit(50000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return pid, out


BUILDS = {}


def others(c, dbg, rel):
    """Other properties that hold in the debug build and fail in the release build."""
    BUILDS.update(debug=dbg, release=rel)
    ps = [p for p in PROPS if p != 'C43']
    with multiprocessing.get_context('fork').Pool(6, maxtasksperchild=1) as pool:
        bad = [(p, k) for p, ks in pool.imap_unordered(one, [(p, 'release', c.seed) for p in ps]) for k in ks]
        dbg = dict(pool.imap_unordered(one, [(p, 'debug', c.seed) for p in {p for p, _ in bad}]))
    return [(p, k) for p, k in bad if k not in dbg[p]]


@prop('C43')
def c43(c):
    rel = Prog(dump.dump(release=True))
    dbg = c.p
    diffs, dnew, rnew = compare(dbg, rel)
    c.require('bodies compared', len(diffs) >= 100, 'fewer bodies than expected are present in both builds (%d)' % len(diffs), 'src')
    ed, er = Effects(dbg), Effects(rel)
    nreg = 0
    vals = []
    seen = {}
    for b, rb, x in diffs:
        free = set().union(*[bound(n) for n in x.debug]) if x.debug else set()
        rfree = set().union(*[bound(n) for n in x.release]) if x.release else set()
        for build, regs, body, ef, fr in (('debug', x.debug, b, ed, free), ('release', x.release, rb, er, rfree)):
            for n in regs:
                nreg += 1
                k = '%s-only code in %s' % (build, strip(body['path']))
                seen[k] = seen.get(k, 0) + 1
                name = k if seen[k] == 1 else '%s #%d' % (k, seen[k])
                es = ef.region(n, body, fr)
                outs = [m for m in walk(n) if m.get('k') in ('Ret', 'Try') and not any(q.get('k') == 'Closure' for q in walk(n))]
                if es:
                    c.bad(name, '%s; this does not happen in the other build' % es[0][0], line(body, es[0][1]))
                elif outs:
                    c.undecided(name, 'leaves the function in one build only')
                else:
                    c.ok(name, 'no effect outside the region')
        for d, r in x.values:
            vals.append((b, d))
    c.cov['regions'] = nreg
    c.cov['bodies_compared'] = len(diffs)
    c.analysed |= {b['path'] for b, _, _ in diffs}
    # the effect analysis sees the effects of ordinary code
    k = [b for b in dbg.all if re.search(r'::protocol::(core|preproc|garble|network)::', b['path']) and ed.region(b['body'], b)]
    c.require('effects of ordinary code are seen', len(k) >= 15, 'the effect analysis reports effects in only %d protocol functions' % len(k), 'src/protocol')
    if vals:
        bad = others(c, dbg, rel)
        for p, key in bad:
            c.bad('%s in the release build' % p, 'code compiled differently without debug assertions breaks "%s" in the release build only' % key,
                  line(*vals[0]))
        if not bad:
            for b, d in vals:
                c.undecided('value in %s' % strip(b['path']), 'differs between the builds')


TECH['C43'] = ('alignment of the type-checked program of the debug build with that of the release build; effect analysis of '
               'every region that exists in one of them only; the other checks run on the release program where values differ')
NOTE['C43'] = 'Static analysis of both builds; regions whose effects are not understood are reported as undecided, never as violations.'
