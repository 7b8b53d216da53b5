"""Obligations, comparison of summaries with specification terms, evidence."""
import contextlib
import itertools
import json
import os
import random
import re
import sys
import time
import traceback
from lib import *
import more
import netio
import binio
import eval as ev
from eval import Env, evalt, same, Undef, Unknown, Opq

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'scalable_mpc::'


# ------------------------------------------------------------------ spec building
# Self-test of the valuations: do not use normal forms to decide (tools/selftest.sh).
NONF = bool(os.environ.get('SG_NONF'))


def A(n, f):
    n = I(n) if isinstance(n, int) else n
    v = fresh(n)
    return arr(n, v, f(v))


def GS(n, f):
    n = I(n) if isinstance(n, int) else n
    v = fresh(n)
    return gsum(n, v, f(v))


def GP(n, f):
    n = I(n) if isinstance(n, int) else n
    v = fresh(n)
    return gprod(n, v, f(v))


def tup(*xs):
    return mk('tup', *xs)


def matmul(Am, rows, inner, cols, Bm):
    return A(rows, lambda i: A(cols, lambda j: GS(inner, lambda k: gmul(at(at(Am, i), k), at(at(Bm, k), j)))))


def draw(site, *ix, kind='gf'):
    return mk('rand', kind, mk('rng', 'thread'), ('spec', site), *ix)


# ------------------------------------------------------------------ distributions
def flatten(v, env, out, skel):
    if isinstance(v, bool):
        out.append(int(v))
        skel.append('n')
    elif isinstance(v, int):
        out.append(v)
        skel.append('n')
    elif isinstance(v, Opq):
        if v.key[0] in ('param', 'at', 'field', 'vf', 'optval') and env.aslist(v):
            flatten(ev.as_list(v, env), env, out, skel)
        else:
            out.append(ev.as_int(v, env))
            skel.append('n')
    elif isinstance(v, (list, tuple)):
        skel.append('(')
        for x in v:
            flatten(x, env, out, skel)
        skel.append(')')
    else:
        skel.append(repr(v))


def rref(rows):
    rows = [r[:] for r in rows if any(r)]
    out = []
    piv = []
    while rows:
        # leftmost pivot
        rows.sort(key=lambda r: next(i for i, x in enumerate(r) if x))
        r = rows.pop(0)
        p = next(i for i, x in enumerate(r) if x)
        iv = ev.finv(r[p])
        r = [ev.fmul(x, iv) for x in r]
        nr = []
        for q in rows:
            if q[p]:
                c = q[p]
                q = [a ^ ev.fmul(c, b) for a, b in zip(q, r)]
            if any(q):
                nr.append(q)
        rows = nr
        for k in range(len(out)):
            if out[k][p]:
                c = out[k][p]
                out[k] = [a ^ ev.fmul(c, b) for a, b in zip(out[k], r)]
        out.append(r)
        piv.append(p)
    order = sorted(range(len(out)), key=lambda k: piv[k])
    return [out[k] for k in order], [piv[k] for k in order]


def reduce_by(v, basis, piv):
    for r, p in zip(basis, piv):
        if v[p]:
            c = v[p]
            v = [a ^ ev.fmul(c, b) for a, b in zip(v, r)]
    return v


class NotAffine(Exception):
    pass


def dist(t, mkenv, maxbool=6, fixed=None):
    """Canonical form of the joint distribution of the value of t over its random draws, at one
    valuation of the inputs: for each assignment of the boolean draws, an affine space."""
    def run(bools, gfs, probe=None):
        env = mkenv()
        env.draws = (bools, gfs, probe)
        v = evalt(t, env)
        out, skel = [], []
        flatten(v, env, out, skel)
        return out, ''.join(skel)
    seen_b, seen_g = {}, {}
    base, sk = run({}, {}, (seen_b, seen_g))
    # discover all draws under all boolean assignments
    kb = list(seen_b)
    if len(kb) > maxbool:
        raise NotAffine('too many boolean draws')
    res = {}
    sizes = None
    for bits in itertools.product((False, True), repeat=len(kb)):
        bools = dict(zip(kb, bits))
        sb, sg = {}, {}
        off, sk = run(bools, {}, (sb, sg))
        if any(k not in bools for k in sb):
            raise NotAffine('boolean draws depend on boolean draws')
        kg = list(sg)
        cols = []
        if len(kg) > 400:
            raise NotAffine('too many draws')
        for k in kg:
            o, s2 = run(bools, {k: 1})
            if s2 != sk:
                raise NotAffine('shape depends on draws')
            cols.append([a ^ b for a, b in zip(o, off)])
        # affine?
        rr = random.Random(7)
        x = {k: rr.randrange(1 << 18) for k in kg}
        o, s2 = run(bools, x)
        pred = off[:]
        for k, c in zip(kg, cols):
            pred = [a ^ ev.fmul(x[k], b) for a, b in zip(pred, c)]
        if o != pred or s2 != sk:
            raise NotAffine('not affine in the draws')
        basis, piv = rref(cols)
        key = (sk, tuple(tuple(r) for r in basis), tuple(reduce_by(off, basis, piv)))
        res[key] = res.get(key, 0) + 1
    g = sum(res.values())
    return {k: v / g for k, v in res.items()}


def has_rand(t):
    return contains(t, lambda x: x.op == 'rand')


def why_unknown(t):
    for x in subterms(t):
        if x.op in ('unk', 'lv') or (x.op == 'call' and x.a[0] not in ev.CALLS):
            return str(x)[:200]
    return None


class Violation(Exception):
    pass


def known_findings():
    """Keys of the recorded findings: property -> {key: text}."""
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', l)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


class Check:
    def __init__(self, pid, prog, tier='quick', seed=0):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.viols = []
        self.known = []
        self.analysed = set()
        self.sites = 0
        self.notes = []
        self.trials = 200 if tier == 'quick' else 400
        self.cap = 40 if tier == 'quick' else 120
        self.cov = {}

    # -------------------------------------------------------------- analysis
    def interp(self, prims=None, opaque=()):
        it = Lib(self.p, prims, opaque)
        it.owner = self
        return it

    def call(self, path, args, prims=None, opaque=(), it=None):
        """Summary of a public function; a missing one is a violation of its own."""
        if self.p.fn(path) is None:
            self.bad('anchor:' + path, 'public function %s is gone, the property cannot hold for it' % path, path)
            raise Violation(path)
        it = it or self.interp(prims, opaque)
        r = it.val(it.call_fn(path, args))
        self.analysed |= it.analysed
        self.sites += it.ncalls
        return r, it

    def where(self, path):
        b = self.p.fn(path)
        return '%s:%s %s' % (b['file'], b['line'], path) if b else path

    @contextlib.contextmanager
    def part(self, name):
        """One group of obligations; what the analysis cannot follow is reported as undecided."""
        try:
            yield
        except Violation:
            pass
        except MemoryError:
            self.undecided(name, 'memory budget used up')
        except Exception as e:
            if os.environ.get('SG_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(name, 'analysis gave up: %s %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    # -------------------------------------------------------------- outcomes
    def ok(self, name, how='structural'):
        self.obs.append({'obligation': name, 'status': 'holds', 'by': how})

    def undecided(self, name, why):
        self.obs.append({'obligation': name, 'status': 'undecided', 'why': str(why)[:300]})

    def bad(self, key, msg, where, detail=None):
        k = known_findings().get(self.pid, {})
        if key in k:
            self.obs.append({'obligation': key, 'status': 'known finding'})
            self.known.append('%s [%s]' % (k[key], key))
            return
        self.obs.append({'obligation': key, 'status': 'violated'})
        self.viols.append({'key': key, 'what': msg, 'where': where, 'detail': detail})

    def require(self, name, cond, msg, where):
        if cond:
            self.ok(name)
        else:
            self.bad(name, msg, where)

    def lacks(self, it, name, msg, where):
        """Something required is not there: a violation, unless it may be in code that was not understood."""
        if it.unknown:
            self.undecided(name, 'not found, but some code was not understood: %s' % sorted(map(str, it.unknown))[0][:100])
        else:
            self.bad(name, msg, where)

    # -------------------------------------------------------------- comparison
    def eq(self, name, code, spec, dom=None, where='', msg=None, alts=(), proofs=()):
        """code must equal spec for all inputs (as distributions where random draws occur)."""
        if NONF:
            alts = proofs = ()
        elif code is spec:
            self.ok(name, 'normal form')
            return True
        elif match_rand(code, spec):
            self.ok(name, 'normal form up to renaming of random draws')
            return True
        for a in alts:
            if code is a or match_rand(code, a):
                self.ok(name, 'normal form (equivalent form of the specification)')
                return True
        for pf in proofs:
            if pf(code, spec):
                self.ok(name, pf.__doc__ or 'rewriting')
                return True
        u = why_unknown(code)
        if dom is None:
            self.undecided(name, 'normal forms differ: %s / %s' % (str(code)[:150], str(spec)[:150]))
            return None
        why = None
        na = []
        t1 = time.time()
        for k in range(self.trials):
            if k > 8 and time.time() - t1 > self.cap:
                break
            seed = (self.seed, name, k)

            def mkenv():
                return dom(random.Random(repr(seed)), k)
            try:
                if has_rand(code) or has_rand(spec):
                    try:
                        ds = dist(spec, mkenv)
                    except Undef:
                        continue
                    dc = dist(code, mkenv)
                    if dc != ds:
                        return self.diff(name, code, spec, where, msg, mkenv(), _dd(dc), _dd(ds))
                else:
                    env = mkenv()
                    try:
                        vs = evalt(spec, env)
                    except Undef:
                        continue
                    vc = evalt(code, env)
                    if not same(vc, vs, env):
                        return self.diff(name, code, spec, where, msg, env, vc, vs)
            except Unknown as e:
                why = 'not understood: %s' % e
                break
            except Undef as e:
                if u is None and str(e) in ev.FATAL:
                    return self.diff(name, code, spec, where, msg, mkenv(), 'fails: %s' % e, 'defined')
                why = 'no value: %s' % e
            except NotAffine as e:
                na.append(str(e))
        if len(na) > k:
            why = na[0]
        self.undecided(name, why or 'normal forms differ, no difference in value found')
        return None

    def judge(self, name, code, forms, dom, verdict, where='', msg=None):
        """code must be one of the given forms, or else satisfy the predicate at every valuation."""
        if not NONF and any(code is f or match_rand(code, f) for f in forms):
            self.ok(name, 'normal form')
            return True
        why = None
        t1 = time.time()
        for k in range(self.trials):
            if k > 8 and time.time() - t1 > self.cap:
                break
            env = dom(random.Random(repr((self.seed, name, k))), k)
            try:
                r = verdict(evalt(code, env), env)
            except Unknown as e:
                why = 'not understood: %s' % e
                break
            except Undef as e:
                if why_unknown(code) is None and str(e) in ev.FATAL:
                    r = 'fails: %s' % e
                else:
                    why = 'no value: %s' % e
                    continue
            if r:
                return self.diff(name, code, S('predicate'), where, msg, env, r, msg)
        self.undecided(name, why or 'no normal form, no counterexample found')
        return None

    def hunt(self, name, terms_, trial, where='', msg=None, proved=None, n=None, bounded=None):
        """Holds if proved; otherwise trial(r, k) looks at one valuation and says what is wrong there."""
        if proved and not NONF:
            self.ok(name, proved)
            return True
        why = None
        t1 = time.time()
        done = 0
        for k in range(n or self.trials):
            if k > 8 and time.time() - t1 > self.cap:
                break
            env = None
            try:
                r = trial(random.Random(repr((self.seed, name, k))), k)
                done += 1
            except Unknown as e:
                why = 'not understood: %s' % e
                break
            except Undef as e:
                if str(e) in ev.FATAL and all(why_unknown(t) is None for t in terms_):
                    r = ('fails: %s' % e, {})
                else:
                    why = 'no value: %s' % e
                    continue
            if r:
                what, at_ = r
                self.bad(name, msg or what, where, {'what': what, 'at': {k: str(v)[:300] for k, v in at_.items()}})
                return False
        if bounded and not why and done >= (n or self.trials) and not NONF:
            self.ok(name, bounded)
            return True
        self.undecided(name, why or 'no proof; no violation at %d valuations' % done)
        return None

    def diff(self, name, code, spec, where, msg, env, vc, vs):
        val = {k: str(v)[:200] for k, v in env.params.items() if not k.startswith('@')}
        self.bad(name, msg or 'value differs from what the property requires', where,
                 {'at': val, 'code': str(vc)[:600], 'required': str(vs)[:600],
                  'code_term': str(code)[:1500], 'required_term': str(spec)[:1500]})
        return False

    # -------------------------------------------------------------- report
    def finish(self, t0, level, known):
        st = {}
        for o in self.obs:
            st[o['status']] = st.get(o['status'], 0) + 1
        fns = sorted({b['path'] if isinstance(b, dict) else str(b) for b in self.analysed})
        cov = {'obligations': len(self.obs), 'by_status': st,
               'functions_analysed': len(fns), 'functions': fns[:80],
               'call_sites_resolved': self.sites,
               'explanation': 'Static analysis of the type-checked tree: each obligation compares the dataflow '
                              'summary of the code with the term the property requires; equal normal forms hold for '
                              'all inputs, differences are reported only when confirmed by a valuation of the terms.',
               'details': self.obs[:1000]}
        cov.update(self.cov)
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
             'wall_s': round(time.time() - t0, 3), 'violations': len(self.viols)}
        if self.notes:
            e['assumptions'] = self.notes
        return e


def _dd(d):
    k = sorted(d.items(), key=repr)
    return [{'shape': a[0][:80], 'free': len(a[1]), 'values': list(a[2])[:24], 'p': p} for a, p in k[:2]]


def rand_sites(t):
    out = {}
    for x in subterms(t):
        if x.op == 'rand':
            out.setdefault((x.a[0], x.a[2], len(x.a) - 3), x.a[1])
    return out


def match_rand(code, spec):
    cs, ss = rand_sites(code), rand_sites(spec)
    if not cs or len(cs) != len(ss) or len(cs) > 5:
        return False
    ck, sk = list(cs), list(ss)
    for perm in itertools.permutations(range(len(ck))):
        if all(ck[perm[i]][0] == sk[i][0] and ck[perm[i]][2] == sk[i][2] for i in range(len(sk))):
            ren = {sk[i]: ck[perm[i]] for i in range(len(sk))}

            def f(x):
                if x.op == 'rand':
                    k = ren.get((x.a[0], x.a[2], len(x.a) - 3))
                    if k:
                        return mk('rand', x.a[0], cs[k], k[1], *x.a[3:])
                return None
            if transform(spec, f) is code:
                return True
    return False


def by_induction(inv):
    """induction over the loop iterations"""
    def pf(code, spec):
        "induction over the loop iterations"
        if code.op != 'fix' or len(code.a[2].a) != 1:
            return False
        n, h, body, inits, k, ch = code.a
        q = fresh(n)
        step = _subst_bv(body.a[0], h, q)
        s = inv(q)
        step = replace(step, {mk('cv', ch, 0): s})
        if inits.a[0] is not inv(I(0)):
            return False
        if step is not inv(add(q, I(1))):
            return False
        return inv(n) is spec
    return pf


def _subst_bv(t, h, v):
    return replace(t, {mk('bv', h): v})
