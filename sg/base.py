"""Shared vocabulary of the property checks."""
import random
from check import *
import terms

GF18 = GFP + '18>'
GFV = 'std::vec::Vec<%s>' % GF18


def nd(k, el=None):
    return 'ndarray::ArrayBase<ndarray::OwnedRepr<%s>, ndarray::Dim<[usize; %d]>>' % (el or GF18, k)


PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def tfn(c, trait, self_head, name, inpath=None):
    """Path of the method of a trait implementation, whatever its generics are called."""
    for b in c.p.all:
        t = b.get('trait') or ''
        if b.get('name') != name or not t.startswith(trait):
            continue
        if t[len(trait):][:1] not in ('', '<') and not trait.endswith('<'):
            continue
        st = b['_tys'][b['self_ty']] if 'self_ty' in b else ''
        if self_head is not None and base_ty(st).split('<')[0] != self_head:
            continue
        if inpath and inpath not in b['path']:
            continue
        k = strip(b['path'])
        if c.p.bypath.get(k) is not b:
            k = b['path']
            c.p.bypath[k] = b
        return k
    return '<%s as %s>::%s' % (self_head, trait, name)


LAG = C + 'math::lagrange_coeffs'
PS = C + 'sharing::PackedSharing::'


def lc(pts, x, j):
    """Value at x of the j-th Lagrange basis polynomial over the points pts."""
    return mk('lc', pts, x, j)


def lagmat(cp, np_):
    return A(length(np_), lambda i: A(length(cp), lambda j: lc(cp, at(np_, i), j)))


def prim_lag(it, args, n):
    a, b = [it.val(x) for x in args[:2]]
    return lagmat(a, b)


LAGP = {LAG: prim_lag}


def vdot(a, b):
    return Lib(Prog([])).dot(a, b, 1, 1)


def o_lc(t, a, env, loc):
    pts = [ev.as_int(x, env) for x in ev._seq(a[0], env, loc)]
    x = ev._int(a[1], env, loc)
    j = ev._int(a[2], env, loc)
    if not 0 <= j < len(pts):
        raise Undef('index out of range')
    r = 1
    for k, p in enumerate(pts):
        if k != j:
            if p == pts[j]:
                raise Undef('inverse of zero')
            r = ev.fmul(r, ev.fmul(x ^ p, ev.finv(pts[j] ^ p)))
    return r


ev.OPS['lc'] = o_lc


def interp_at(pts, vals, x):
    """Value at x of the polynomial through (pts, vals)."""
    r = 0
    for j in range(len(pts)):
        p = vals[j]
        for k in range(len(pts)):
            if k != j:
                p = ev.fmul(p, ev.fmul(x ^ pts[k], ev.finv(pts[j] ^ pts[k])))
        r ^= p
    return r


def distinct(r, k, lo=0, hi=1 << 18):
    s = []
    while len(s) < k:
        x = r.randrange(lo, hi)
        if x not in s:
            s.append(x)
    return s


def gfs(r, k):
    return [r.randrange(1 << 18) for _ in range(k)]


def fold(n, init, step):
    """Term of the loop `x = init; for i in 0..n { x = step(i, x) }`."""
    w = fresh(n)
    p = mk('param', '@acc%d' % w.a[0] if w.a else '@acc')
    b0 = step(w, p)
    h = 1 + b0.hb
    b = mk('tup', replace(b0, {p: mk('cv', h, 0)}))
    return mk('fix', n, b.hb + 1, terms._subst_raw(b, w, mk('bv', b.hb + 1)), mk('tup', init), I(0), h)


TECH = {}
NOTE = {}


def addn(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


def muln(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul(r, x)
    return r


def isolated(c, parts):
    """Runs groups of obligations [(name, f)] in processes of their own (facts and lengths assumed by one do not
    reach another) and collects their outcomes."""
    import pickle
    import signal
    import traceback
    run = []
    for name, f in parts:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                signal.alarm(600)
                c.obs, c.viols, c.known, c.cov = [], [], [], {}
                with c.part(name):
                    f(c)
                with os.fdopen(wr, 'wb') as fh:
                    pickle.dump((c.obs, c.viols, c.known, c.cov, sorted({b['path'] if isinstance(b, dict) else str(b) for b in c.analysed}), c.sites), fh)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        run.append((name, pid, rd))
    for name, pid, rd in run:
        with os.fdopen(rd, 'rb') as fh:
            d = fh.read()
        os.waitpid(pid, 0)
        try:
            obs, viols, known, cov, an, sites = pickle.loads(d)
        except Exception:
            c.undecided(name, 'analysis did not finish')
            continue
        c.obs += obs
        c.viols += viols
        c.known += known
        for k, v in cov.items():
            c.cov[k] = c.cov.get(k, 0) + v if isinstance(v, int) else v
        c.analysed |= set(an)
        c.sites += sites
