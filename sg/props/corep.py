from netspec import *

CO = C + 'protocol::core::'
OPT16 = 'std::option::Option<u16>'


def vec(name, n):
    v = atom(name, nd(1))
    ARRLEN[v] = n
    return v


def msgs(env_id, n, num):
    """Payloads of the parties' messages as shares."""
    def f(p, k):
        return at(mk('deser', mk('msgp', env_id, p)), k)
    return f


class Red:
    """Shared by degree reduction, multiplication and transformation."""
    def __init__(self, c):
        self.c = c
        self.x = Ctx(c)
        self.num = atom('num', 'usize')
        self.id = atom('pid', IDTY)
        MSGLEN[self.id] = self.num
        self.L = atom('L', 'u16')
        FACTS.append(sub(sub(self.x.n, self.L), I(1)))
        FACTS.append(self.num)

    def dom(self, r, k):
        p = self.x.params(r, k)
        num = r.randrange(0 if k % 7 == 6 else 1, 4)
        n = p['n']
        p.update(num=num, L=r.randrange(n), pid=[r.randrange(256) for _ in range(3)])
        if k % 2:
            p['me'] = p['L']
        for v in ('vx', 'vy', 'rnd', 'rndn', 'zero'):
            p[v] = gfs(r, num)
        lo = r.randrange(1, p['l'] + 1)
        old = distinct(r, lo, n)
        ln = r.randrange(1, p['l'] + 1)
        p.update(old=old, new=distinct(r, ln, n), f=[r.randrange(lo) for _ in range(ln)])
        return Env(p, seed=r.randrange(1 << 30), lens=lambda key: num if key and key[0] in ('deser', 'call') else None,
                   )

    def reshare(self, recon_pos, new_pos, select):
        x = self.x

        def elem(k):
            sh = A(x.n, lambda p: at(mk('deser', mk('msgp', self.id, p)), k))
            sec = select(spec_recon(recon_pos, sub(x.n, I(1)), x.n, sh))
            return spec_share(new_pos, x.d, x.n, sec, lambda i: draw('tail', k, i))
        return elem

    def check(self, name, f, args, masked, elem, rnd):
        c, x = self.c, self.x
        it = c.interp({**LAGP, **NETP})
        with c.part(name):
            m, _ = c.call(CO + f, args, it=it)
            W = c.where(CO + f)
            def spec(q):
                reply = A(self.num, lambda k: at(elem(k), q))
                first = ite(eq0(sub(self.L, q)), one(tup(self.id, mk('ser', masked))), EMPTY)
                second = ite(eq0(sub(x.id, self.L)), one(tup(self.id, mk('ser', reply))), EMPTY)
                return cat(first, second)
            c.eq(name + ': messages', A(x.n, lambda q: inbox(it, q)), A(x.n, spec), self.dom, W,
                 'the messages sent are not the masked shares and the leader\'s reshared secrets')
            got = mk('deser', field(mk('recvd', self.id, I(0)), 'data'))
            c.eq(name + ': result', m, A(self.num, lambda k: gadd(at(got, k), at(rnd, k))), self.dom, W,
                 'the result is not the received share minus the own random share')


@prop('C23')
def c23(c):
    s = Red(c)
    vx, vy, rnd, zero = [vec(v, s.num) for v in ('vx', 'vy', 'rnd', 'zero')]
    ld = opt(TRUE, s.L)
    el = s.reshare(s.x.dp, s.x.dp, lambda v: v)
    s.check('reduce_degree', 'reduce_degree', [s.id, vx, rnd, zero, ld, s.x.term, netatom()],
            A(s.num, lambda k: gadd(gadd(at(vx, k), at(rnd, k)), at(zero, k))), el, rnd)
    s.check('mult', 'mult', [s.id, vx, vy, rnd, zero, ld, s.x.term, netatom()],
            A(s.num, lambda k: gadd(gadd(gmul(at(vx, k), at(vy, k)), at(rnd, k)), at(zero, k))), el, rnd)


@prop('C25')
def c25(c):
    s = Red(c)
    vx, rnd, rndn = [vec(v, s.num) for v in ('vx', 'rnd', 'rndn')]
    old, new = atom('old', GFV), atom('new', GFV)
    f = atom('f', 'std::vec::Vec<usize>')
    ARRLEN[f] = length(new)
    FACTS.extend([sub(s.x.l, length(old)), sub(s.x.l, length(new)), sub(length(old), I(1)), sub(length(new), I(1))])
    with c.part('setup'):
        comb, _ = c.call(C + 'math::Combination::new', [f])
        tf, _ = c.call(CO + 'SharingTransform::new', [old, new, comb])

        def sel(v):
            return A(length(new), lambda i: at(v, at(f, i)))
        el = s.reshare(old, new, sel)
        s.check('trans', 'trans', [s.id, vx, rnd, rndn, tf, opt(TRUE, s.L), s.x.term, netatom()],
                A(s.num, lambda k: gadd(at(vx, k), at(rndn, k))), el, rnd)


@prop('C24')
def c24(c):
    s = Red(c)
    x = s.x
    vx, vy, rnd, rndn, zero = [vec(v, s.num) for v in ('vx', 'vy', 'rnd', 'rndn', 'zero')]
    old, new = atom('old', GFV), atom('new', GFV)
    f = atom('f', 'std::vec::Vec<usize>')
    ARRLEN[f] = length(new)
    comb, _ = c.call(C + 'math::Combination::new', [f])
    tf, _ = c.call(CO + 'SharingTransform::new', [old, new, comb])
    tail = [x.term, netatom()]
    for name, args in (('reduce_degree', [s.id, vx, rnd, zero]), ('mult', [s.id, vx, vy, rnd, zero]),
                       ('trans', [s.id, vx, rnd, rndn, tf])):
        W = c.where(CO + name)
        with c.part(name):
            it = c.interp({**LAGP, **NETP})
            c.call(CO + name, args + [NONE] + tail, it=it)
            first = [e for e in sends(it) if not e.loops and e.pc is TRUE]
            if not first:
                c.undecided(name, 'no message sent by every party')
                continue
            to = parts(first[0].args[1])[0]
            L = to.a[1] if to.op == 'ctor' and to.a[0] == ONE else None
            if L is None:
                c.undecided(name, 'recipient not understood')
                continue
            fv = {y for y in subterms(L) if y.op in ('param', 'rand', 'call', 'unk', 'lv', 'mapentries')}
            hid = mk('seahash', s.id)
            if fv <= {s.id, x.n} and L is fmod(hid, x.n):
                c.ok(name + ': leader', 'normal form: hash of the identifier modulo the number of parties')
            else:
                c.judge(name + ': leader', tup(L), [], s.dom, leader_verdict(s, L), W,
                        'the leader is not determined by identifier and party count alone, or not a party')
            # the one acting as leader is the one addressed
            for given in (False, True):
                if given:
                    it = c.interp({**LAGP, **NETP})
                    c.call(CO + name, args + [opt(TRUE, s.L)] + tail, it=it)
                    L = s.L
                acts = FALSE
                for e in it.events:
                    if e.kind == 'recveach':
                        acts = bor(acts, e.pc)
                c.eq('%s: only the leader reconstructs%s' % (name, ' (given)' if given else ''), acts, eq0(sub(x.id, L)), s.dom, W,
                     'a party other than the leader collects the masked shares, or the leader does not')
                dst = tup(*[parts(e.args[1])[0] for e in sends(it) if not e.loops])
                want = tup(*[mk('ctor', ONE, L) for _ in dst.a])
                c.eq('%s: addressee%s' % (name, ' (given)' if given else ''), dst, want, s.dom, W,
                     'masked shares are sent to another party than the leader')


    import leaders
    leaders.given(c)


def leader_verdict(s, L):
    def f(v, env):
        n = env.params['n']
        if not isinstance(v[0], int):
            return None
        if not 0 <= v[0] < n:
            return 'party number %d of %d' % (v[0], n)
        p = dict(env.params)
        for me in range(n):
            p['me'] = me
            p['t'], p['vx'], p['rnd'] = env.params['t'], gfs(random.Random(me), p['num']), gfs(random.Random(me + 50), p['num'])
            e2 = Env(p, seed=env.seed, lens=env.lens)
            w = evalt(L, e2)
            if w != v[0]:
                return 'party %d picks %s, party %d picks %d' % (me, w, env.params['me'], v[0])
    return f


@prop('C26')
def c26(c):
    x = Ctx(c)
    n, t, l = x.n, x.t, x.l
    G_, num = atom('groups', 'usize'), atom('num', 'usize')
    FACTS.extend([sub(l, G_), sub(G_, I(1)), sub(num, I(1))])
    pid = atom('pid', IDTY)
    MSGLEN[pid] = mul(I(2), num)
    old, new = atom('old', 'std::vec::Vec<%s>' % GFV), atom('new', 'std::vec::Vec<%s>' % GFV)
    f = atom('f', 'std::vec::Vec<std::vec::Vec<usize>>')
    for v in (old, new, f):
        ARRLEN[v] = G_
    rnds, zs = atom('rnds', 'std::collections::VecDeque<%s>' % GF18), atom('zs', 'std::collections::VecDeque<%s>' % GF18)
    ARRLEN[rnds] = mul(num, add(n, t))
    ARRLEN[zs] = mul(I(2), mul(n, num))
    lo, ln = atom('lo', 'usize'), atom('ln', 'usize')
    FACTS.extend([sub(l, lo), sub(l, ln), sub(lo, I(1)), sub(ln, I(1))])

    def dom(r, k):
        p = x.params(r, k)
        g = r.randrange(1, p['l'] + 1)
        m = r.randrange(1, 3)
        a, b = r.randrange(1, p['l'] + 1), r.randrange(1, p['l'] + 1)
        p.update(groups=g, num=m, lo=a, ln=b, pid=[1, 2],
                 old=[distinct(r, a, p['n']) for _ in range(g)], new=[distinct(r, b, p['n']) for _ in range(g)],
                 f=[[r.randrange(a) for _ in range(b)] for _ in range(g)],
                 rnds=gfs(r, m * (p['n'] + p['t'])), zs=gfs(r, 2 * m * p['n']))
        return Env(p, seed=r.randrange(1 << 30), lens=lambda key: 2 * m if key and key[0] == 'deser' else None)

    # all point lists of one kind have the same length
    terms.ROWLEN.update({old: lo, new: ln, f: ln})
    with c.part('pairs'):
        it = c.interp({**LAGP, **NETP})
        tf, _ = c.call(CO + 'RandSharingTransform::new', [old, new, mkcombs(c, it, f, G_), x.term], it=it)
        m, _ = c.call(CO + 'randtrans', [pid, rnds, zs, tf, x.term, netatom()], it=it)
        W = c.where(CO + 'randtrans')
        tl = add(t, l)

        def rows(off, cnt):
            return A(cnt, lambda r: A(num, lambda k: at(rnds, add(mul(add(off, r), num), k))))
        # secrets, low-degree masks, high-degree masks
        low_pts, high_pts = rows(I(0), tl), cat(rows(I(0), l), rows(tl, sub(n, l)))
        enc = cat(x.dp, one(gfint(I(0))))

        def e(g):
            return lc(enc, gfint(x.id), g)

        def pts(pos, g, m_, cnt):
            return cat(at(pos, g), A(sub(cnt, m_), lambda i: gfint(i)))

        def sel(g):
            return cat(at(f, g), A(sub(tl, ln), lambda i: add(i, ln)))

        def low(q, k):
            # value at share point q: coefficient of each random value, encoded over the groups
            co = A(tl, lambda r: GS(G_, lambda g: gmul(e(g), vdot(
                A(tl, lambda j: lc(pts(new, g, ln, tl), gfint(q), j)),
                A(tl, lambda j: at(at(delta(sel(g), tl), j), r))))))
            return vdot(co, A(tl, lambda r: at(at(low_pts, r), k)))

        def high(q, k):
            co = A(n, lambda r: GS(G_, lambda g: gmul(e(g), lc(pts(old, g, lo, n), gfint(q), r))))
            return vdot(co, cat(*[A(length(s_), lambda r: at(at(s_, r), k)) for s_ in high_pts.a]))
        nz = mul(n, num)

        def spec(q):
            d = cat(A(num, lambda k: gadd(low(q, k), at(zs, add(nz, add(mul(q, num), k))))),
                    A(num, lambda k: gadd(high(q, k), at(zs, add(mul(q, num), k)))))
            return one(tup(pid, mk('ser', d)))
        c.eq('messages', A(n, lambda q: inbox(it, q)), A(n, spec), dom, W,
             'the contributions are not blinded shares of the random pair')

        def out(off):
            sh = lambda k: A(n, lambda p: at(mk('deser', mk('msgp', pid, p)), add(off, k)))
            return A(l, lambda j: A(num, lambda k: at(spec_recon(x.dp, sub(n, I(1)), n, sh(k)), j)))
        c.eq('result', m, tup(out(I(0)), out(num)), dom, W, 'the pair returned is not reconstructed from all contributions')


def mkcombs(c, it, f, g):
    """A slice of combinations with arbitrary maps."""
    def one_(i):
        return it.val(it.call_fn(C + 'math::Combination::new', [at(f, i)]))
    return A(g, one_)


def delta(sel, m):
    """Matrix of the selection: row j has its one in column sel[j]."""
    return A(m, lambda j: A(m, lambda r: ite(eq0(sub(at(sel, j), r)), GONE, GZERO)))
