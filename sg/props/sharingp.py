from base import *

NDV = nd(1)
U32 = 'u32'


def share_setup(c):
    d, n = atom('d', U32), atom('n', U32)
    pos = atom('pos', GFV)
    FACTS.append(sub(sub(n, d), I(1)))
    FACTS.append(sub(add(d, I(1)), length(pos)))
    it = c.interp(LAGP)
    me, _ = c.call(PS + 'new', [d, n, pos], it=it)
    rng = mk('ref', it.alloc(mk('rng', 'thread')), ())
    return d, n, pos, it, me, rng


def dom(r, k):
    """Parameters of a sharing: n parties, degree d, secret points outside the share points."""
    n = 1 if k == 0 else r.randrange(9, 24) if k % 12 == 7 else r.randrange(1, 8)
    d = min(r.randrange(0, n), r.randrange(0, n))
    l = r.randrange(0 if k % 5 == 4 else 1, d + 2)
    pos = distinct(r, l, n)
    m = l if k % 3 else r.randrange(0, l + 1)
    return Env({'d': d, 'n': n, 'pos': pos, 'secrets': gfs(r, m), 'full': gfs(r, l), 'sh': gfs(r, n)})


def shpos(n):
    return A(n, lambda i: gfint(i))


def allpos(pos, n):
    return cat(pos, shpos(n))


@prop('C10')
def c10(c):
    n, l = atom('n', U32), atom('l', U32)
    wires = atom('wires', 'std::vec::Vec<u32>')

    def d2(r, k):
        return Env({'n': r.choice((256, 300, 1000)) if k % 9 == 8 else r.randrange(1, 6), 'l': r.choice((256, 300, 1000)) if k % 9 == 7 else r.randrange(1, 5),
                    'wires': [r.randrange(0, 200000 if k % 2 else 1000) for _ in range(r.randrange(0, 5))]})
    s, _ = c.call(PS + 'share_pos', [n])
    c.eq('share point of party i is i', s, shpos(n), d2, c.where(PS + 'share_pos'), 'share points differ')
    s, _ = c.call(PS + 'default_pos', [n, l])
    c.eq('default points follow the share points', s, A(l, lambda i: gfint(add(n, i))), d2, c.where(PS + 'default_pos'),
         'default points differ')
    s, it = c.call(PS + 'wire_to_pos', [n, l, wires])
    s = it.val(it.seqval(s)) if hasattr(it, 'seqval') else s
    c.eq('wire points follow both groups', s, A(length(wires), lambda i: gfint(add(add(n, l), at(wires, i)))), d2,
         c.where(PS + 'wire_to_pos'), 'wire points differ')
    c.notes.append('disjointness and injectivity follow from the three ranges [0,n), [n,n+l), [n+l,..) while sums stay below the field order')


@prop('C11')
def c11(c):
    d, n, pos, it, me, rng = share_setup(c)
    l, np_ = length(pos), add(d, I(1))
    full = atom('full', NDV)
    ARRLEN[full] = l
    base_pts = cat(pos, A(sub(np_, l), lambda i: gfint(i)))
    k0 = sub(np_, l)

    def consistent(name, sh, f):
        pts = cat(A(l, lambda j: at(full, j)), seqslice(sh, I(0), k0))
        c.eq(name + ': one share per party', length(sh), n, dom, c.where(PS + f), 'wrong number of shares')
        c.eq(name + ': shares lie on the polynomial through the secrets', seqslice(sh, k0, n),
             A(sub(n, k0), lambda i: vdot(A(np_, lambda j: lc(base_pts, gfint(add(k0, i)), j)), pts)), dom, c.where(PS + f),
             'shares are not on one polynomial of the stated degree through the secrets')
    sh, _ = c.call(PS + 'share', [me, full, rng], it=it)
    consistent('share', sh, 'share')
    cf, _ = c.call(PS + 'compute_share_coeffs', [d, n, pos], it=it)
    sh2, _ = c.call(PS + 'share_using_coeffs', [full, cf, l, rng], it=it)
    consistent('share_using_coeffs', sh2, 'share_using_coeffs')
    rs, _ = c.call(PS + 'rand', [me, rng], it=it)
    c.eq('rand: one share per party', length(rs), n, dom, c.where(PS + 'rand'), 'wrong number of shares')
    c.eq('rand: shares lie on a polynomial of the stated degree', seqslice(rs, np_, n),
         A(sub(n, np_), lambda i: vdot(A(np_, lambda j: lc(shpos(np_), gfint(add(np_, i)), j)), seqslice(rs, I(0), np_))), dom,
         c.where(PS + 'rand'), 'random shares are not on one polynomial of the stated degree')
    s = atom('sh', NDV)
    ARRLEN[s] = n
    last = A(np_, lambda i: gfint(add(sub(n, np_), i)))
    rec = A(l, lambda j: GS(np_, lambda k: gmul(lc(last, at(pos, j), k), at(s, add(sub(n, np_), k)))))
    def domc(r_, k):
        e = dom(r_, k)
        p = e.params
        pts = list(range(p['d'] + 1))
        vals = gfs(r_, p['d'] + 1)
        p['sh'] = [interp_at(pts, vals, x) for x in range(p['n'])]
        return e
    r, _ = c.call(PS + 'semihon_recon', [me, s], it=it)
    c.eq('semihon_recon interpolates the shares', r, rec, domc, c.where(PS + 'semihon_recon'), 'wrong secrets reconstructed')
    r, _ = c.call(PS + 'recon', [me, s], it=it)
    c.eq('recon returns the secrets', ok_val(r), rec, domc, c.where(PS + 'recon'), 'wrong secrets reconstructed')
    for f, args in (('recon_coeffs', [me]), ('compute_recon_coeffs', [d, n, pos])):
        cr, _ = c.call(PS + f, args, it=it)
        r, _ = c.call(PS + 'recon_using_coeffs', [s, cr], it=it)
        c.eq('reconstruction with ' + f, r, rec, domc, c.where(PS + f), 'wrong secrets reconstructed')
    for f, want in (('num_parties', n), ('num_secrets', l), ('degree', d)):
        v, _ = c.call(PS + f, [me], it=it)
        c.eq('accessor ' + f, v, want, dom, c.where(PS + f), 'accessor reports another value')


@prop('C12')
def c12(c):
    d, n, pos, it, me, rng = share_setup(c)
    np_ = add(d, I(1))
    s = atom('sh', NDV)
    r, _ = c.call(PS + 'recon', [me, s], it=it)
    last = A(np_, lambda i: gfint(add(sub(n, np_), i)))
    k = fresh(sub(n, np_))
    cons = binder('forall', sub(n, np_), k, gfeq(at(s, k), GS(np_, lambda q: gmul(lc(last, gfint(k), q), at(s, add(sub(n, np_), q))))))
    lenok = eq0(sub(length(s), n))

    def domc(r_, t):
        e = dom(r_, t)
        p = e.params
        pts = list(range(p['d'] + 1))
        vals = gfs(r_, p['d'] + 1)
        p['sh'] = [interp_at(pts, vals, x) for x in range(p['n'])]
        if t % 4 in (1, 2):
            # alter one share; with d+1 < n this is never consistent
            p['sh'][r_.randrange(p['n'])] ^= 1 + r_.randrange(1 << 17)
        elif t % 4 == 3:
            p['sh'] = (p['sh'] + gfs(r_, 2))[:p['n'] + r_.choice((-1, 1))]
        return e
    w = c.where(PS + 'recon')
    c.eq('accepts exactly consistent vectors of n shares', is_ok(r), band(lenok, cons), domc, w,
         'checked reconstruction accepts an inconsistent share vector or rejects a consistent one')
    mal = C + 'ProtoErrorKind::MaliciousBehavior'
    e = err_val(r)
    c.eq('inconsistency is reported as malicious behaviour', ite(is_ok(r), FALSE, isv(e, mal)),
         band(lenok, bnot(cons)), domc, w, 'inconsistent shares are not reported as malicious behaviour')
    c.eq('a wrong number of shares is another error', ite(is_ok(r), FALSE, bnot(isv(e, mal))), bnot(lenok), domc, w,
         'a wrong number of shares is not reported as an error of its own')


@prop('C13')
def c13(c):
    d, n, pos, it, me, rng = share_setup(c)
    l, np_ = length(pos), add(d, I(1))
    sec = atom('secrets', NDV)
    FACTS.append(sub(l, length(sec)))
    m = length(sec)
    k0 = sub(np_, l)
    base_pts = cat(pos, A(k0, lambda i: gfint(i)))
    tail = A(k0, lambda i: draw('tail', i))
    pts = cat(A(m, lambda j: at(sec, j)), A(sub(l, m), lambda j: draw('pad', j)), tail)

    def spec(coef):
        return cat(tail, A(sub(n, k0), lambda i: vdot(A(np_, lambda j: coef(i, j)), pts)))
    sh, _ = c.call(PS + 'share', [me, sec, rng], it=it)
    c.eq('share: d+1-l uniform elements and random padding', sh, spec(lambda i, j: lc(base_pts, gfint(add(k0, i)), j)), dom,
         c.where(PS + 'share'), 'shares are not uniformly distributed given the secrets')
    cf, _ = c.call(PS + 'compute_share_coeffs', [d, n, pos], it=it)
    sh, _ = c.call(PS + 'share_using_coeffs', [sec, cf, l, rng], it=it)
    c.eq('share_using_coeffs: d+1-l uniform elements and random padding', sh,
         spec(lambda i, j: lc(base_pts, gfint(add(k0, i)), j)), dom,
         c.where(PS + 'share_using_coeffs'), 'shares are not uniformly distributed given the secrets')
    rs, _ = c.call(PS + 'rand', [me, rng], it=it)
    t = A(np_, lambda i: draw('r', i))
    c.eq('rand: d+1 uniform elements', rs,
         cat(t, A(sub(n, np_), lambda i: vdot(A(np_, lambda j: lc(shpos(np_), gfint(add(np_, i)), j)), t))), dom,
         c.where(PS + 'rand'), 'random shares are not uniformly distributed')
    two = tup(c.call(PS + 'share', [me, sec, rng], it=it)[0], c.call(PS + 'share', [me, sec, rng], it=it)[0])
    sites = [set(rand_sites(x)) for x in two.a]
    c.cov['draw_sites'] = sum(len(x) for x in sites)
    if all(sites):
        c.ok('at least one draw per sharing')
    else:
        c.lacks(it, 'at least one draw per sharing', 'a sharing draws no randomness', c.where(PS + 'share'))
