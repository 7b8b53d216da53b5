from netspec import *
from matp import aborts

PP = C + 'protocol::preproc::'
VD = 'std::collections::VecDeque<%s>' % GF18


def payload(it):
    """The data of the first message sent, when it is a serialised sequence."""
    for e in sends(it):
        d = parts(e.args[1])[2]
        if d.op == 'ser':
            return d.a[0]


@prop('C27')
def c27(c):
    x = Ctx(c)
    n, t, l = x.n, x.t, x.l
    num = atom('num', 'usize')
    bs = atom('bs', 'usize')
    pid = atom('pid', IDTY)
    sup = atom('sup', nd(2))
    ARRLEN[sup] = bs
    terms.ROWLEN[sup] = n
    FACTS.extend([sub(bs, I(1)), num, sub(n, bs)])

    def dom(r, k):
        p = x.params(r, k)
        b = r.randrange(1, p['n'] + 1)
        m = r.randrange(0 if k % 5 == 4 else 1, 6)
        p.update(num=m, bs=b, pid=[7], sup=[gfs(r, p['n']) for _ in range(b)])
        if k % 2:
            p['num'] = m = b * r.randrange(1, 3)
        return Env(p, seed=r.randrange(1 << 30), lens=lambda key: -(-m // b) if key and key[0] == 'deser' else None)
    np_ = add(x.d, I(1))
    nz = sub(n, I(1))

    def rnd(b):
        dr = A(np_, lambda i: draw('r', b, i))
        return cat(dr, A(sub(n, np_), lambda i: vdot(A(np_, lambda j: lc(shpts(np_), gfint(add(np_, i)), j)), dr)))

    def zero(b):
        return spec_share(x.dp, nz, n, A(l, lambda i: GZERO), lambda i: draw('z', b, i))

    def bits(b):
        return spec_share(x.dp, x.d, n, A(l, lambda i: ite(draw('b', b, i, kind='bool'), GONE, GZERO)), lambda i: draw('t', b, i))
    for name, ctx, spec, what in (('rand', 'RandContext', rnd, 'random sharings'),
                                  ('zero', 'ZeroContext', zero, 'high-degree sharings of zero'),
                                  ('randbit', 'RandBitContext', bits, 'low-degree sharings of uniform bits')):
        W = c.where(PP + name)
        with c.part(name):
            it = c.interp({**LAGP, **NETP})
            cx, _ = c.call(PP + ctx + '::new', [sup, x.term], it=it)
            B = add(I(1), fdiv(sub(num, I(1)), bs))
            MSGLEN[pid] = B
            m, _ = c.call(PP + name, [pid, num, cx, netatom()], it=it)
            pay = payload(it)
            if pay is not None and length(pay) is not B:
                # another number of batches: still fine if it suffices
                B2 = length(pay)
                if not any(v in B2.fv for v, _ in sends(it)[0].loops):
                    MSGLEN[pid] = B = B2
                    it = c.interp({**LAGP, **NETP})
                    m, _ = c.call(PP + name, [pid, num, cx, netatom()], it=it)
            c.eq(name + ': contributions', A(n, lambda q: inbox(it, q)),
                 A(n, lambda q: one(tup(pid, mk('ser', A(B, lambda b: at(spec(b), q)))))), dom, W,
                 'the contributions are not %s, one share to each party' % what)
            res_ = flat(A(bs, lambda i: A(B, lambda b: GS(n, lambda p: gmul(at(at(sup, i), p), at(mk('deser', mk('msgp', pid, p)), b))))))
            c.eq(name + ': combination', m, res_, dom, W, 'the output is not the combination of all parties\' contributions')
            c.judge(name + ': enough shares', tup(length(m), num), [tup(mul(bs, add(I(1), fdiv(sub(num, I(1)), bs))), num)], dom,
                    lambda v, env: None if v[0] >= v[1] else '%d shares returned, %d requested' % v, W, 'fewer shares than requested')


# ---------------------------------------------------------------- preprocessing as a whole
DESC = PP + 'PreProcCount'


def sharesrc(kind):
    """A protocol that returns at least the requested number of shares of one kind."""
    def p(it, args, n):
        pid, num = it.val(args[0]), it.val(args[1])
        ex = atom('extra_' + kind, 'usize')
        if ex not in FACTS:
            FACTS.append(ex)
        s = mk('shares', kind, pid, addn(num, ex))
        ARRLEN[s] = addn(num, ex)
        TY[s] = nd(1)
        it.event('proto', n, S(kind), pid, num)
        return mk('afut', kind, s)
    return p


def p_mult(it, args, n):
    pid, vx, vy, r, z, ld = [it.val(a) for a in args[:6]]
    it.event('proto', n, S('mult'), pid, ld, length(vx))
    return mk('afut', 'mult', A(length(vx), lambda k: mk('mulsh', at(vx, k), at(vy, k), at(r, k), at(z, k))))


def o_shares(t, a, env, loc):
    p = ev.canon(ev._ev(a[1], env, loc))
    return [('sh', a[0], p, i) for i in range(ev._int(a[2], env, loc))]


ev.OPS['shares'] = o_shares
ev.OPS['mulsh'] = lambda t, a, env, loc: ('mul',) + tuple(ev._ev(x, env, loc) for x in a)
PREP = {PP + 'rand': sharesrc('rand'), PP + 'zero': sharesrc('zero'), PP + 'randbit': sharesrc('bit'),
        C + 'protocol::core::mult': p_mult}


def leaves(v):
    if v[0] == 'mul':
        return [y for x in v[1:] for y in leaves(x)]
    return [v]


def factors(v):
    """(factors of a product of shares, masks used)"""
    if v[0] != 'mul':
        return [v], []
    f, m = [], [v[3:5]]
    for x in v[1:3]:
        a, b = factors(x)
        f += a
        m += b
    return f, m


def preproc_all(c):
    x = Ctx(c)
    n = x.n
    pid = atom('pid', IDTY)
    E, Mk, R, Z, k0, k1, k2 = ks = [atom(v, 'usize') for v in ('nerr', 'nmask', 'nrnd', 'nzero', 'k0', 'k1', 'k2')]
    FACTS.extend(ks)
    desc = mk('struct', DESC, (('masks', Mk), ('keys', tup(k0, k1, k2)), ('randoms', R), ('zeros', Z), ('errors', E)))
    it = c.interp({**LAGP, **NETP, **PREP, **IDP(c)})
    m, _ = c.call(PP + 'preproc', [pid, desc, x.term, atom('rc', PP + 'RandContext<18>'),
                                   atom('zc', PP + 'ZeroContext<18>'), atom('bc', PP + 'RandBitContext<18>'),
                                   netatom()], it=it)

    def dom(r, k):
        p = x.params(r, k)
        nn = p['n']
        e = [r.randrange(0, 3 * nn), r.randrange(0, nn), nn * r.randrange(1, 3), nn * 2 + r.randrange(1, nn)][k % 4]
        p.update(pid=[7], nerr=e, nmask=r.randrange(0, 5 if k % 3 else 4 * nn), nrnd=r.randrange(0, 6), nzero=r.randrange(0, 6), k0=2,
                 k1=r.randrange(1, 4), k2=r.randrange(0, 4))
        for s in ('rand', 'zero', 'bit'):
            p['extra_' + s] = r.choice((0, 0, 1, 3)) if k // 4 % 2 else 0
        return Env(p, seed=r.randrange(1 << 30))
    return x, it, m, dom, ks, pid


def split(x, E, pid, kid):
    """The present layout: shares taken front to back, an equal batch per leader, the last taking the rest."""
    n = x.n
    B = fdiv(E, n)
    R, Z, T = [lambda i, k=k, q=q: at(src(k, q), i) for k, q in (('rand', 0), ('zero', 1), ('bit', 2))]
    ex = {k: atom('extra_' + k, 'usize') for k in ('rand', 'zero', 'bit')}
    tot = {}

    def src(k, q):
        s = mk('shares', k, kid(q), addn(tot[k], ex[k]))
        ARRLEN[s] = addn(tot[k], ex[k])
        TY[s] = nd(1)
        return s

    def err(g, bs, k):
        o = muln(g, B)
        return mk('mulsh', mk('mulsh', T(addn(muln(I(2), o), k)), T(addn(muln(I(2), o), bs, k)), R(addn(muln(I(3), o), k)),
                              Z(addn(muln(I(2), o), k))),
                  R(addn(muln(I(3), o), bs, k)), R(addn(muln(I(3), o), muln(I(2), bs), k)), Z(addn(muln(I(2), o), bs, k)))
    return R, Z, T, err, tot, B


def material(x, ks, pid):
    E, Mk, Rn, Zn, k0, k1, k2 = ks
    R, Z, T, err, tot, B = split(x, E, pid, lambda q: mk('child', pid, I(q)))
    kk = muln(muln(k0, k1), k2)
    tot.update(rand=addn(kk, Rn, muln(I(3), E)), zero=addn(Zn, muln(I(2), E)), bit=addn(Mk, muln(I(2), E)))
    last = sub(x.n, I(1))
    rest = sub(E, muln(last, B))
    errs = cat(flat(A(last, lambda g: A(B, lambda k: err(g, B, k)))), A(rest, lambda k: err(last, rest, k)))
    e3, e2 = muln(I(3), E), muln(I(2), E)
    return {'masks': A(Mk, lambda k: T(addn(e2, k))),
            'keys': A(k0, lambda a: A(k1, lambda b: A(k2, lambda d: R(addn(e3, muln(muln(a, k1), k2), muln(b, k2), d))))),
            'randoms': A(addn(Rn, atom('extra_rand', 'usize')), lambda k: R(addn(e3, kk, k))),
            'zeros': A(addn(Zn, atom('extra_zero', 'usize')), lambda k: Z(addn(e2, k))),
            'errors': errs}


FLD = ('masks', 'keys', 'randoms', 'zeros', 'errors')


def matterm(m):
    return tup(*[field(m, f) for f in FLD])


@prop('C29')
def c29(c):
    x, it, m, dom, ks, pid = preproc_all(c)
    w = c.where(PP + 'preproc')
    spec = material(x, ks, pid)

    def verdict(v, env):
        g = env.params
        masks, keys, rnd, zer, err = v
        if len(masks) != g['nmask']:
            return '%d masks for %d described' % (len(masks), g['nmask'])
        if len(err) != g['nerr']:
            return '%d errors for %d described' % (len(err), g['nerr'])
        if len(keys) != g['k0'] or any(len(a) != g['k1'] or any(len(b) != g['k2'] for b in a) for a in keys):
            return 'keys not in the described shape'
        if len(rnd) < g['nrnd']:
            return '%d random shares for %d described' % (len(rnd), g['nrnd'])
        if len(zer) < g['nzero']:
            return '%d zero shares for %d described' % (len(zer), g['nzero'])
        kflat = [z for a in keys for b in a for z in b]
        for what, vs, kind in (('mask', masks, 'bit'), ('key', kflat, 'rand'), ('random', rnd, 'rand'), ('zero', zer, 'zero')):
            for s in vs:
                if s[:2] != ('sh', kind):
                    return '%s is made of %s' % (what, s[:2])
        seen = {}
        for what, vs in (('mask', masks), ('key', kflat), ('random', rnd), ('zero', zer), ('error', err)):
            for s in vs:
                for y in leaves(s):
                    if y in seen:
                        return 'one %s share used in %s and in %s' % (y[1], seen[y], what)
                    seen[y] = what
    c.judge('material', matterm(m), [matterm(mk('struct', m.a[0], tuple((f, spec[f]) for f in FLD)))], dom, verdict, w,
            'preprocessing does not return the described material with every share used once')


@prop('C30')
def c30(c):
    x, it, m, dom, ks, pid = preproc_all(c)
    w = c.where(PP + 'preproc')
    errs = field(m, 'errors')

    def verdict(v, env):
        if len(v) != env.params['nerr']:
            return '%d errors for %d described' % (len(v), env.params['nerr'])
        used = set()
        for e in v:
            f, ms = factors(e)
            kinds = sorted(s[1] for s in f)
            if kinds != ['bit', 'bit', 'rand']:
                return 'an error is the product of shares of kind %s' % kinds
            if len(set(f)) != 3:
                return 'an error multiplies a share by itself'
            for a, b in ms:
                if a[:2] != ('sh', 'rand') or b[:2] != ('sh', 'zero'):
                    return 'a product is masked by %s and %s' % (a[:2], b[:2])
            for s in leaves(e):
                if s in used:
                    return 'two errors, or an error and its own mask, use one share'
                used.add(s)
    c.judge('errors', errs, [material(x, ks, pid)['errors']], dom, verdict, w,
            'error shares are not products of two bit shares of their own and a random share of their own')
    lead = [e for e in it.events if e.kind == 'proto' and e.args[0] is S('mult')]
    if not lead:
        return c.lacks(it, 'products computed', 'no product is computed for the errors', w)
    c.ok('products computed')
    # work per leader, as a sequence of (leader, number of products)
    work = cat(*[loopseq(e, tup(e.args[2], e.args[3])) for e in lead])

    def lverdict(v, env):
        n, E = env.params['n'], env.params['nerr']
        tot = {}
        for ld, k in v:
            ld = optval(ld)
            if ld is None:
                return 'a product has no leader'
            tot[ld] = tot.get(ld, 0) + k
        if sum(tot.values()) != 2 * E:
            return '%d products for %d errors' % (sum(tot.values()), E)
        if E >= n and sorted(a for a in tot if tot[a]) != list(range(n)):
            return 'work done by leaders %s of %d parties' % (sorted(a for a in tot if tot[a]), n)
    n, E, B = x.n, ks[0], fdiv(ks[0], x.n)
    one_ = lambda g, k: tup(some(g), k)
    last = sub(n, I(1))
    rest = sub(E, muln(last, B))
    form = cat(*[A(last, lambda g: one_(g, B)), A(last, lambda g: one_(g, B)), lst(one_(last, rest)), lst(one_(last, rest))])
    c.judge('leaders', work, [form], dom, lverdict, w, 'the error computation is not split over all parties')
    me = x.id
    every_party(c, matterm(m), me, dom, w)


def every_party(c, t, me, dom, w):
    if me not in subterms(t):
        return c.ok('same at every party', 'does not mention the party number')
    other = atom('other', 'usize')
    c.eq('same at every party', t, replace(t, {me: other}),
         lambda r, k: with_other(dom(r, k), r), w, 'what a share is used for depends on the party')


def with_other(env, r):
    env.params['other'] = r.randrange(env.params['n'])
    return env


# ---------------------------------------------------------------- stored and dummy material
def stored(c, B, K, pre='m_'):
    fs = []
    for f, ln, ty in (('masks', B, nd(1)), ('randoms', atom('nr', 'usize'), VD), ('zeros', atom('nz', 'usize'), VD),
                      ('errors', atom('ne', 'usize'), VD)):
        t = atom(pre + f, ty)
        ARRLEN[t] = ln
        FACTS.append(ln)
        fs.append((f, t))
    ka = atom(pre + 'keys', nd(3))
    fs.insert(1, ('keys', A(I(2), lambda i: A(K, lambda j: A(B, lambda g: at(at(at(ka, i), j), g))))))
    return mk('struct', PP + 'PreProc', tuple(fs))


def roundtrip(c, m, laid=None):
    it = c.interp()
    it.laid = laid or {}
    r, _ = c.call(tfn(c, 'serde::Serialize', PP + 'PreProc', 'serialize'), [m, atom('serializer', 'S')], it=it)
    r2, _ = c.call(tfn(c, 'serde::Deserialize', PP + 'PreProc', 'deserialize'), [ok_val(r)], it=it)
    return it, tup(aborts(it), is_ok(r), is_ok(r2)), ok_val(r2)


@prop('C31')
def c31(c):
    w = '; '.join(sorted({c.where(tfn(c, 'serde::Serialize', PP + 'PreProc', 'serialize')),
                          c.where(tfn(c, 'std::convert::From', PP + 'PreProc', 'from'))}))
    K = atom('K', 'usize')

    def dom(r, k):
        b, q = r.randrange(1, 6), r.randrange(1, 6)
        p = dict(K=q, B=b, m_masks=gfs(r, b), m_keys=[[gfs(r, b) for _ in range(q)] for _ in range(2)])
        for f, nm in (('randoms', 'nr'), ('zeros', 'nz'), ('errors', 'ne')):
            p[nm] = r.randrange(0, 5)
            p['m_' + f] = gfs(r, p[nm])
        return Env(p, seed=r.randrange(1 << 30))

    def dom0(r, k):
        e = dom(r, k)
        for f in FLD:
            e.params['z_' + f] = e.params['m_' + f]
        e.params.update(z_masks=[], z_keys=[[[] for _ in range(e.params['K'])] for _ in range(2)])
        return e
    fine = tup(FALSE, TRUE, TRUE)
    with c.part('round trip'):
        B = atom('B', 'usize')
        FACTS.extend([sub(B, I(1)), sub(K, I(1))])
        m = stored(c, B, K)
        it, ok, m2 = roundtrip(c, m)
        c.eq('round trip: accepted', ok, fine, dom, w, 'reading stored material back fails')
        for f in FLD:
            c.eq('round trip: ' + f, field(m2, f), field(m, f), dom, w, '%s are not restored as they were stored' % f)
    with c.part('other layout'):
        # the same keys kept in memory with the block number varying slowest
        B = atom('B', 'usize')
        m = stored(c, B, K)
        ks = field(m, 'keys')
        mem = flat(A(B, lambda g: flat(A(K, lambda j: A(I(2), lambda i: at(at(at(ks, i), j), g))))))
        it, ok, m2 = roundtrip(c, m, {ks: mem})
        c.eq('other layout: accepted', ok, fine, dom, w, 'reading stored material back fails when the keys are not in standard layout')
        c.eq('other layout: keys', field(m2, 'keys'), ks, dom, w, 'keys that are not in standard layout are not restored as they were stored')
    with c.part('no blocks'):
        m = stored(c, I(0), K, 'z_')
        it, ok, m2 = roundtrip(c, m)
        c.eq('no blocks: accepted', ok, fine, dom0, w, 'reading back material with no blocks fails')
        for f in ('masks', 'randoms', 'zeros', 'errors'):
            c.eq('no blocks: ' + f, field(m2, f), field(m, f), dom0, w,
                 '%s are not restored as they were stored' % f)
        kz = field(m2, 'keys')
        c.eq('no blocks: keys', flat(flat(kz)), EMPTY, dom0, w, 'keys appear from nowhere')


@prop('C32')
def c32(c):
    x = Ctx(c)
    n, t, l, me = x.n, x.t, x.l, x.id
    w = c.where(PP + 'PreProc::dummy')
    E, Mk, R, Z, k0, k1, k2 = ks = [atom(v, 'usize') for v in ('nerr', 'nmask', 'nrnd', 'nzero', 'k0', 'k1', 'k2')]
    FACTS.extend(ks)
    seed = atom('seed', 'u64')
    desc = mk('struct', DESC, (('masks', Mk), ('keys', tup(k0, k1, k2)), ('randoms', R), ('zeros', Z), ('errors', E)))
    it = c.interp({**LAGP})
    m, _ = c.call(PP + 'PreProc::dummy', [seed, desc, x.term], it=it)
    mt = matterm(m)

    def dom(r, k):
        p = x.params(r, k)
        p.update(seed=r.randrange(1 << 60), nerr=r.randrange(0, 5), nmask=r.randrange(1, 5), nrnd=r.randrange(0, 5),
                 nzero=r.randrange(1, 5), k0=2, k1=r.randrange(1, 4), k2=r.randrange(0, 4))
        return Env(p, seed=r.randrange(1 << 30))
    # randomness
    bad = {}
    nd_ = 0
    for y in subterms(mt):
        if y.op != 'rand':
            continue
        nd_ += 1
        g = y.a[1]
        if g.op != 'rng' or g.a[0] not in ('seed', 'seed64'):
            bad['rng'] = 'draws from %s' % (g,)
        elif any(z.op == 'param' and z is not seed and z not in (n, t, l) for z in subterms(g)):
            bad['seed'] = 'generator seeded from %s' % (g.a[1],)
    c.require('randomness is the seed', not bad and (nd_ or it.unknown), '; '.join(bad.values()) or 'nothing is drawn', w)
    pool = {y.a[1] for y in subterms(mt) if y.op == 'mod' and y.a[1].op == 'int'}
    P = pool.pop() if len(pool) == 1 else I(100000)
    pts = cat(defpts(n, l), A(t, lambda i: gfint(i)))
    ptn = cat(defpts(n, l), A(sub(n, l), lambda i: gfint(i)))

    def rd(site, i, k, kind='gf'):
        return mk('rand', kind, mk('rng', 'seed64', seed), ('spec', site), addn(fmod(i, P), mul(P, k)))

    def rnd(i):
        return GS(add(t, l), lambda k: gmul(lc(pts, gfint(me), k), rd('r', i, k)))
    kk = muln(k0, k1, k2)
    form = tup(A(Mk, lambda i: gadd(GS(t, lambda k: gmul(lc(pts, gfint(me), add(k, l)), rd('t', i, k))),
                                    GS(l, lambda k: ite(rd('b', i, k, 'bool'), lc(pts, gfint(me), k), GZERO)))),
               A(k0, lambda a: A(k1, lambda b: A(k2, lambda d: rnd(addn(d, mul(b, k2), muln(a, k1, k2)))))),
               A(R, lambda i: rnd(add(i, kk))),
               A(Z, lambda i: GS(sub(n, l), lambda k: gmul(lc(ptn, gfint(me), add(k, l)), rd('z', i, k)))),
               A(E, lambda i: rnd(addn(i, R, kk))))
    if not NONF and match_rand(mt, form):
        return c.ok('shape and sharings', 'normal form up to renaming of random draws')
    other = fresh(n)
    joint = A(n, lambda q: replace(mt, {me: q}))

    def verdict(v, env):
        g = env.params
        nn, tt, ll = g['n'], g['t'], g['l']
        for q in v:
            masks, keys, rn, ze, er = q
            for what, got, want in (('masks', len(masks), g['nmask']), ('random shares', len(rn), g['nrnd']),
                                    ('zero shares', len(ze), g['nzero']), ('errors', len(er), g['nerr'])):
                if got != want:
                    return '%d %s for %d described' % (got, what, want)
            if len(keys) != g['k0'] or any(len(a) != g['k1'] or any(len(b) != g['k2'] for b in a) for a in keys):
                return 'keys not in the described shape'
        flatq = [(q[0], [z for a in q[1] for b in a for z in b], q[2], q[3], q[4]) for q in v]
        for j, what in enumerate(('mask', 'key', 'random share', 'zero share', 'error')):
            deg = nn - 1 if what == 'zero share' else tt + ll - 1
            for i in range(len(flatq[0][j])):
                sh = [q[j][i] for q in flatq]
                sh = [ev.as_int(y, env) for y in sh]
                xs = list(range(deg + 1))
                for p in range(deg + 1, nn):
                    if interp_at(xs, sh[:deg + 1], p) != sh[p]:
                        return 'the shares of a %s do not lie on a polynomial of degree %d' % (what, deg)
                sec = [interp_at(xs, sh[:deg + 1], nn + z) for z in range(ll)]
                if what == 'mask' and any(z not in (0, 1) for z in sec):
                    return 'a mask shares %s' % sec
                if what == 'zero share' and any(sec):
                    return 'a zero share shares %s' % sec
    c.judge('shape and sharings', joint, [], dom, verdict, w, 'the dummy material of the parties is not consistent')
