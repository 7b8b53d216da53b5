import re
import os
from check import NONF
from preprocp import *

GA = C + 'protocol::garble::'
CO = C + 'protocol::core::'
CIRC = C + 'circuit::PackedCircuit'
PGI = C + 'circuit::PackedGateInfo'
PG = C + 'circuit::PackedGate::'


# ---------------------------------------------------------------- contracts of the sub-protocols
def p_stnew(it, args, n):
    return mk('struct', CO + 'SharingTransform', tuple(zip(('o', 'n', 'f'), [it.val(a) for a in args[:3]])))


def p_rtnew(it, args, n):
    return mk('struct', CO + 'RandSharingTransform', tuple(zip(('o', 'n', 'f'), [it.val(a) for a in args[:3]])))


def p_gmult(it, args, n):
    """Product of the shared values (masked by one random and one zero share each)."""
    pid, vx, vy, r, z, ld = [it.val(a) for a in args[:6]]
    it.event('mult', n, pid, vx, vy, r, z, ld)
    if it.opaque_mult:
        return mk('afut', 'mult', A(length(vx), lambda k: mk('gmsh', pid, k)))
    return mk('afut', 'mult', A(length(vx), lambda k: gmul(at(vx, k), at(vy, k))))


def p_trans(it, args, n):
    """Moves shared values between points: the result number k of the transformation with this identifier."""
    pid, sh, r, rn, tf, ld = [it.val(a) for a in args[:6]]
    it.event('trans', n, pid, sh, r, rn, tf, ld)
    return mk('afut', 'trans', A(length(sh), lambda k: mk('trsh', pid, k)))


def p_randtrans(it, args, n):
    """Pairs of random sharings, one row per transformation."""
    pid, r, z, tf, ctx = [it.val(a) for a in args[:5]]
    it.event('randtrans', n, pid, r, z, tf)
    num = fdiv(length(r), add(field(ctx, 'n'), field(ctx, 't')))
    l = field(ctx, 'l')

    def out(kind):
        return A(l, lambda j: A(num, lambda k: mk('rtsh', kind, pid, j, k)))
    return mk('afut', 'randtrans', tup(out('lo'), out('hi')))


def p_rs(it, args, n):
    a, b = it.val(args[0]), it.val(args[1])
    m = mk('rsmat', a, b)
    TY[m] = nd(2)
    ARRLEN[m] = b
    terms.ROWLEN[m] = a
    return m


GARP = {CO + 'SharingTransform::new': p_stnew, CO + 'RandSharingTransform::new': p_rtnew, CO + 'mult': p_gmult,
        CO + 'trans': p_trans, CO + 'randtrans': p_randtrans, C + 'math::rs_gen_mat': p_rs}


def o_trsh(t, a, env, loc):
    i = ev.canon(ev._ev(a[0], env, loc))
    k = ev._int(a[1], env, loc)
    f = env.trsh.get((i, k))
    if f is None:
        raise Undef('result of a transformation that was not run')
    return f


def o_mulsh(t, a, env, loc):
    i = ev.canon(ev._ev(a[0], env, loc))
    k = ev._int(a[1], env, loc)
    f = env.gmsh.get((i, k))
    if f is None:
        raise Undef('result of a multiplication that was not run')
    return f


def o_rtsh(t, a, env, loc):
    return ('rt', a[0], ev.canon(ev._ev(a[1], env, loc)), ev._int(a[2], env, loc), ev._int(a[3], env, loc))


ev.OPS['trsh'] = o_trsh
ev.OPS['rtsh'] = o_rtsh
ev.OPS['gmsh'] = o_mulsh


def o_rsmat(t, a, env, loc):
    k, m = ev._int(a[0], env, loc), ev._int(a[1], env, loc)
    return [[env.rnd('rsmat', i, j) & ev.MASK for j in range(k)] for i in range(m)]


ev.OPS['rsmat'] = o_rsmat


# ---------------------------------------------------------------- circuits
def o_sha256(t, a, env, loc):
    import hashlib
    v = ev._seq(a[0], env, loc)
    if all(isinstance(x, int) and 0 <= x < 256 for x in v):
        return list(hashlib.sha256(bytes(v)).digest())
    return ev.Opq(('sha256', ev.canon(v)), env)


ev.OPS['sha256'] = o_sha256


def inplen(t):
    """Gates have two inputs, inverters one."""
    x = t
    if x.op == 'field' and x.a[1] == 'inp' and x.a[0].op == 'vf' and str(x.a[0].a[1]).startswith(PG):
        return I(1 if x.a[0].a[1].endswith('Inv') else 2)


def packed(r, l, kinds=None, ngates=None):
    """A packed circuit as (input blocks, gate blocks (kind, inputs, outputs))."""
    ni = r.randrange(1, 6)
    G = r.randrange(1, 5) if ngates is None else ngates
    shapes = sorted([(r.choice(kinds or 'AXI'), r.randrange(1, l + 1)) for _ in range(G)]) if r.randrange(3) else \
        [(r.choice(kinds or 'AXI'), r.randrange(1, l + 1)) for _ in range(G)]
    nw = ni + sum(s for _, s in shapes)
    outs = list(range(ni, nw))
    r.shuffle(outs)
    ins = list(range(ni))
    if not r.randrange(3):
        ins, outs = [outs, ins] if False else [ins, outs]
    blocks = [ins[i:i + l] for i in range(0, ni, l)]
    gates = []
    few = r.sample(range(nw), min(nw, r.randrange(1, 4))) if r.randrange(2) else list(range(nw))
    for k, s in shapes:
        o, outs = outs[:s], outs[s:]
        inp = [[r.choice(few) for _ in range(s)] for _ in range(1 if k == 'I' else 2)]
        gates.append((k, inp, o))
    return blocks, gates, nw


def circval(blocks, gates, nw, l):
    name = {'A': 'And', 'X': 'Xor', 'I': 'Inv'}
    gs = [('C', PG + name[k], ('S', PGI, (('inp', inp), ('out', o)))) for k, inp, o in gates]
    return ('S', CIRC, (('gates', gs), ('inputs', blocks), ('outputs', []), ('num_wires', nw), ('gates_per_block', l)))


class Gar:
    """Summary of the garbling protocol and its evaluation at given circuits."""
    def __init__(self, c, mats=None, opaque=True):
        self.c = c
        self.cache = {}
        if inplen not in terms.FIELDLEN:
            terms.FIELDLEN.append(inplen)
        x = self.x = Ctx(c)
        self.pid = atom('pid', IDTY)
        circ = self.circ = atom('circ', CIRC)
        self.I_, self.G_ = length(field(circ, 'inputs')), length(field(circ, 'gates'))
        nb = self.nb = add(self.I_, self.G_)
        FACTS.extend([sub(x.K, I(1)), sub(x.M, I(1))])
        self.masks = atom('masks', nd(1))
        ARRLEN[self.masks] = nb
        ka = self.ka = atom('keys', nd(3))
        keys = A(I(2), lambda i: A(x.K, lambda j: A(nb, lambda g: at(at(at(ka, i), j), g))))
        self.rnds, self.zs, self.errs = [atom(v, VD) for v in ('rnds', 'zs', 'errs')]
        pre = mk('struct', PP + 'PreProc', (('masks', self.masks), ('keys', keys), ('randoms', self.rnds),
                                            ('zeros', self.zs), ('errors', self.errs)))
        it = self.it = c.interp({**LAGP, **NETP, **IDP(c), **GARP})
        it.opaque_mult = opaque
        cx, _ = c.call(GA + 'GarbleContext::new', [circ, x.term], it=it)
        self.cx = cx
        if mats:
            cx = mats(self, cx)
        m, _ = c.call(GA + 'garble', [self.pid, pre, cx, netatom()], it=it)
        self.res = field(m, 'gates')
        self.evs = [e for e in it.events if e.kind in ('trans', 'randtrans', 'mult')]
        self.w = c.where(GA + 'garble')

    def seqs(self, kind):
        if kind not in self.cache:
            self.cache[kind] = [(e, loopseq(e, tup(*e.args))) for e in self.evs if e.kind == kind]
        return self.cache[kind]

    # -------------------------------------------------------------- valuations
    def inst(self, r, k, **kw):
        """An instance: parameters and a circuit."""
        p = self.x.params(r, k, False)
        p['klen'], p['mlen'] = r.randrange(1, 3), r.randrange(2, 4)
        l = p['l']
        blocks, gates, nw = packed(r, l, **kw)
        nb = len(blocks) + len(gates)
        K, M, n, t = p['klen'], p['mlen'], p['n'], p['t']
        nin = sum(len(g[1]) for g in gates)
        rt = (-(-nb // l) + -(-nin // l)) * (2 * K + 1)
        cnt = {q: sum(1 for g in gates if g[0] == q) for q in 'AXI'}
        mul_ = cnt['A'] * (3 * (K + 1) + 1) + (cnt['X'] + cnt['I']) * (K + 1)
        p.update(circ=circval(blocks, gates, nw, l), pid=[7],
                 masks=gfs(r, nb), keys=[[gfs(r, nb) for _ in range(K)] for _ in range(2)],
                 rnds=[('rnd', i) for i in range(3 * (rt * (n + t) + mul_))],
                 zs=[('zero', i) for i in range(3 * (rt * 2 * n + mul_))],
                 errs=gfs(r, 12 * M * len(gates)))
        return Inst(self, p, blocks, gates, r.randrange(1 << 30))


class Inst:
    def __init__(self, gar, p, blocks, gates, seed):
        self.g, self.p, self.blocks, self.gates, self.seed = gar, p, blocks, gates, seed
        self.pub = {}
        self.n, self.l, self.t, self.K, self.M = p['n'], p['l'], p['t'], p['klen'], p['mlen']
        self.wires = {}
        for b, ws in enumerate(blocks + [g[2] for g in gates]):
            for j, w in enumerate(ws):
                self.wires[w] = (b, j)
        self.outw = [list(b) for b in blocks] + [g[2] for g in gates]

    def redrawn(self, r):
        nb = len(self.outw)
        p = {**self.p, 'masks': gfs(r, nb), 'keys': [[gfs(r, nb) for _ in range(self.K)] for _ in range(2)],
             'errs': gfs(r, len(self.p['errs']))}
        return Inst(self.g, p, self.blocks, self.gates, r.randrange(1 << 30))

    def env(self, **kw):
        e = Env({**self.p, **kw}, seed=self.seed)
        e.trsh, e.gmsh = {}, {}
        e.pub, e.secret = self.pub, SEC
        return e

    def h(self, *key):
        return ev.h(self.seed, key) & ev.MASK

    def wpos(self, w):
        return self.n + self.l + w

    def lcs(self, pts, x):
        return [interp_at(pts, [1 if i == j else 0 for i in range(len(pts))], x) for j in range(len(pts))]

    def mapping(self, tf, row=None):
        """Where the value at each new point comes from, as sorted pairs (new point, old point)."""
        d = dict(tf[2])
        o, n, f = d['o'], d['n'], d['f']
        if row is not None:
            o, n, f = o[row], n[row], f[row]
        f = f[2][0][1]
        if len(f) != len(n):
            raise Bad('a combination of %d values for %d points' % (len(f), len(n)))
        return tuple(sorted((int(a), int(o[i])) for a, i in zip(n, f)))

    def run(self, env, values=None):
        """Runs the transformations in order.  Each result is described by where it comes from."""
        src = {}
        for b, v in enumerate(self.p['masks']):
            src[v] = ('mask', b)
        for s in range(2):
            for k in range(self.K):
                for b, v in enumerate(self.p['keys'][s][k]):
                    src[v] = ('key', s, k, b)
        pairs = {}
        used = set()
        desc = {}
        dp = [self.n + j for j in range(self.l)]
        for e, s in [(e, s) for kind in ('randtrans',) for e, s in self.g.seqs(kind)]:
            for pid, r, z, tf in ev._seq(s, env, {}):
                pid = ev.canon(pid)
                rows = dict(tf[2])['n']
                pairs[pid] = [self.mapping(tf, j) for j in range(len(rows))]
        me = int(self.p['me'])
        outs = {}
        for e, s in self.g.seqs('trans'):
            for pid, sh, r, rn, tf, ld in ev._seq(s, env, {}):
                pid = ev.canon(pid)
                m = self.mapping(tf)
                if not len(sh) == len(r) == len(rn):
                    raise Bad('a transformation of %d shares uses %d and %d random sharings' % (len(sh), len(r), len(rn)))
                for k, v in enumerate(sh):
                    a, b = r[k], rn[k]
                    if not (a[:2] == ('rt', 'lo') and b[:2] == ('rt', 'hi') and a[2:] == b[2:]):
                        raise Bad('the random sharings of a transformation are not a pair')
                    if a in used:
                        raise Bad('a pair of random sharings is used for two transformations')
                    used.add(a)
                    rows = pairs.get(a[2], [])
                    if a[3] >= len(rows) or rows[a[3]] != m:
                        raise Bad('a transformation uses a random pair made for another transformation')
                    v = ev.as_int(v, env)
                    if v in src:
                        d = self.first(m, src[v])
                        if d is None:
                            raise Bad('the values of a block are not moved to the points of its wires')
                        outs[d] = self.h('T', d)
                    else:
                        d = self.second(m, v, outs, me)
                        if d is None:
                            raise Bad('what is moved to the default points is not the selection of the values of the '
                                      'wires that feed a gate input')
                    desc[(pid, k)] = d
                    env.trsh[(pid, k)] = (values or self.h)('T', d)
        self.desc = desc
        return desc

    def first(self, m, src):
        """(block, what) when the mapping moves the values of the block to its wires' points."""
        b = src[-1]
        ws = self.outw[b]
        if sorted(m) == sorted((self.wpos(w), self.n + j) for j, w in enumerate(ws)):
            return ('out', b, src[:-1])

    def second(self, m, v, outs, me):
        inv = {self.wpos(w): w for w in self.wires}
        new = [a for a, _ in m]
        if new != [self.n + j for j in range(len(m))] or any(o not in inv for _, o in m):
            return None
        ws = [inv[o] for _, o in m]
        uniq = sorted(set(ws))
        co = self.lcs([self.wpos(w) for w in uniq], me)
        for what in [('mask',)] + [('key', s, k) for s in range(2) for k in range(self.K)]:
            x = 0
            for w, q in zip(uniq, co):
                x ^= ev.fmul(q, outs.get(('out', self.wires[w][0], what), self.h('none', w, what)))
            if x == v:
                return ('in', tuple(ws), what)
        return None

    # -------------------------------------------------------------- what the property requires
    def plain(self, g, row, c, F):
        """Entry c of the label that row `row` of gate g must carry."""
        kind, inp, _ = self.gates[g]
        b = len(self.blocks) + g
        mo = F['mask'](b)
        ms = [F['in'](('in', tuple(w), ('mask',))) for w in inp]
        i, j = row >> 1, row & 1
        if kind == 'I':
            v = ms[0] ^ row ^ 1
        elif kind == 'X':
            v = ms[0] ^ ms[1] ^ i ^ j
        else:
            v = ev.fmul(ms[0] ^ i, ms[1] ^ j)
        v ^= mo
        if c == self.K:
            return mo ^ v
        k0, k1 = F['key'](0, c, b), F['key'](1, c, b)
        return k0 ^ ev.fmul(v, k0 ^ k1)

    def inkey(self, g, row, k, F):
        kind, inp, _ = self.gates[g]
        if kind == 'I':
            return F['in'](('in', tuple(inp[0]), ('key', row, k)))
        return F['in'](('in', tuple(inp[0]), ('key', row >> 1, k))) ^ F['in'](('in', tuple(inp[1]), ('key', row & 1, k)))

    def rows(self, g):
        return 2 if self.gates[g][0] == 'I' else 4

    def enc(self, i, c):
        return Env({}, seed=self.seed).rnd('rsmat', i, c) & ev.MASK

    def gates_at(self, env):
        v = ev._seq(self.g.res, env, {})
        if len(v) != len(self.gates):
            raise Bad('%d garbled gates for %d gates' % (len(v), len(self.gates)))
        out = []
        for g, a in enumerate(v):
            if len(a) != self.rows(g) or any(len(x) != self.M for x in a):
                raise Bad('the garbled table of a gate does not have the right shape')
            out.append([[ev.as_int(y, env) for y in x] for x in a])
        return out

    def mults(self, env):
        """Runs the multiplications."""
        for e, s in self.g.seqs('mult'):
            for pid, vx, vy, r, z, ld in ev._seq(s, env, {}):
                pid = ev.canon(pid)
                if len(vx) != len(vy):
                    raise Bad('a multiplication of %d values by %d values' % (len(vx), len(vy)))
                for k in range(len(vx)):
                    env.gmsh[(pid, k)] = ev.fmul(ev.as_int(vx[k], env) & ev.MASK, ev.as_int(vy[k], env) & ev.MASK)

    def with_values(self, tr, masks=None, keys=None, errs=None):
        """Result when transformed values are given by tr(description)."""
        nb = len(self.outw)
        env = self.env(masks=masks or [0] * nb, keys=keys or [[[0] * nb for _ in range(self.K)] for _ in range(2)],
                       errs=errs or [0] * len(self.p['errs']))
        for key, d in self.desc.items():
            env.trsh[key] = tr(d)
        self.mults(env)
        return self.gates_at(env)

    def matrices(self):
        """The matrix each row of each gate applies to the input key, extracted by linearity."""
        base = self.with_values(lambda d: 0)
        mats = [[[[None] * self.K for _ in range(self.M)] for _ in range(self.rows(g))] for g in range(len(self.gates))]
        for k in range(self.K):
            for s in range(2):
                # a unit in coordinate k of the keys for value s
                got = self.with_values(lambda d: 1 if d[0] == 'in' and d[2] == ('key', s, k) else 0)
                for g, (kind, inp, _) in enumerate(self.gates):
                    for row in range(self.rows(g)):
                        sides = [row] if kind == 'I' else [row >> 1, row & 1]
                        for i in range(self.M):
                            d = got[g][row][i] ^ base[g][row][i]
                            if sides.count(s) == 1:
                                if mats[g][row][i][k] is None:
                                    mats[g][row][i][k] = d
                                elif mats[g][row][i][k] != d:
                                    raise Bad('the two input keys of a row are not multiplied by one matrix')
                            elif d:
                                raise Bad('a row depends on a key that does not belong to it')
        # rows for which both sides carry the same value: one side at a time
        for g, (kind, inp, _) in enumerate(self.gates):
            if kind == 'I':
                continue
            for row in (0, 3):
                for k in range(self.K):
                    for i in range(self.M):
                        mats[g][row][i][k] = None
            if inp[0] == inp[1]:
                continue
            for k in range(self.K):
                for row in (0, 3):
                    for side in range(2):
                        got = self.with_values(lambda d: 1 if d == ('in', tuple(inp[side]), ('key', row & 1, k)) else 0)
                        for i in range(self.M):
                            d = got[g][row][i] ^ base[g][row][i]
                            if mats[g][row][i][k] is None:
                                mats[g][row][i][k] = d
                            elif mats[g][row][i][k] != d:
                                raise Bad('the two input keys of a row are not multiplied by one matrix')
        return mats


class Bad(Exception):
    pass


def garbled(c, f, routing=False):
    """A trial that draws an instance, routes labels and hands over to f."""
    g = f.g

    def look(i, r):
        try:
            i.run(i.env())
        except Bad as e:
            return str(e) if routing else None
        try:
            return f(i, r)
        except Bad as e:
            return str(e)

    def trial(r, k):
        i = g.inst(r, k)
        m = look(i, r)
        # values are drawn at random and can coincide: what is wrong must be so for other values as well
        for _ in range(2):
            if not m:
                return None
            i = i.redrawn(r)
            m = look(i, r)
        return (m, i.p) if m else None
    return trial


def gar(c):
    if not hasattr(c, 'gar'):
        c.gar = Gar(c)
    return c.gar


def with_g(g):
    def d(f):
        f.g = g
        return f
    return d


def bits(i, r):
    """Values with masks that are bits."""
    nb = len(i.outw)
    masks = [r.randrange(2) for _ in range(nb)]
    keys = [[gfs(r, nb) for _ in range(i.K)] for _ in range(2)]
    v = {}

    def tr(d):
        if d not in v:
            v[d] = r.randrange(2) if d[2] == ('mask',) else r.randrange(1 << 18)
        return v[d]
    return masks, keys, tr


def forms(i, masks, keys, tr):
    return {'mask': lambda b: masks[b], 'key': lambda s, k, b: keys[s][k][b], 'in': tr}


def rows_proved(c):
    """Do the garbled tables have the required closed form, whatever the matrices and labels?"""
    if NONF:
        return None
    if not hasattr(c, 'rows_pr'):
        c.rows_pr = None
        try:
            g = Gar(c, free_mats, opaque=False)
            if g.res is spec_rows(g):
                c.rows_pr = 'normal form of the garbled tables for arbitrary labels, matrices and errors'
        except Exception as e:
            if os.environ.get('SG_DEBUG'):
                raise
    return c.rows_pr


SECRET = ('masks', 'keys', 'errs', 'rnds', 'zs')
_sec = {}


def SEC(t):
    return secret(t, _sec)




def secret(t, memo):
    r = memo.get(t)
    if r is None:
        r = memo[t] = t.op in ('trsh', 'gmsh') or t.op == 'param' and t.a[0] in SECRET or \
            any(secret(y, memo) for x in t.a for y in kids(x))
    return r


def kids(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from kids(y)


def linear(t, memo, sm):
    """No product of two values that depend on shares inside t (multiplication results count as shares)."""
    if t in memo:
        return memo[t]
    ok = True
    if t.op in ('trsh', 'gmsh'):
        ok = True
    elif t.op == 'gf':
        ok = all(sum(secret(x, sm) for x in m) <= 1 for m in t.a[0]) and all(linear(x, memo, sm) for m in t.a[0] for x in m)
    elif t.op in ('gfsum', 'arr', 'cat', 'flat', 'at', 'case', 'ite', 'tup', 'gfint', 'gfval'):
        if t.op in ('case', 'ite') and secret(t.a[0], sm):
            ok = False
        ok = ok and all(linear(y, memo, sm) for x in t.a for y in kids(x))
    elif t.op == 'param':
        ok = True
    else:
        ok = not secret(t, sm)
    memo[t] = ok
    return ok


def shares_linear(g):
    memo, sm = {}, {}
    if not linear(g.res, memo, sm):
        return None
    for e in g.evs:
        if e.kind == 'mult' and not all(linear(a, memo, sm) for a in e.args[1:3]):
            return None
    return 'every product in the garbled tables and in what is multiplied has at most one factor that depends on shares'


NAME = {'A': 'AND', 'X': 'XOR', 'I': 'inverter'}


def ctext(i, g, row, e, F):
    x = 0
    for q in range(i.K + 1):
        x ^= ev.fmul(i.enc(e, q), i.plain(g, row, q, F))
    return x


@prop('C33')
def c33(c):
    g = gar(c)

    @with_g(g)
    def f(i, r):
        masks, keys, tr = bits(i, r)
        got = i.with_values(lambda d: 0 if d[2][0] == 'key' else tr(d), masks, keys)
        F = forms(i, masks, keys, tr)
        for n in range(len(i.gates)):
            for row in range(i.rows(n)):
                for e in range(i.M):
                    if got[n][row][e] != ctext(i, n, row, e, F):
                        return 'row %d of %s blocks does not carry the label that the gate function selects' % (
                            row, NAME[i.gates[n][0]])
    c.hunt('labels', [g.res], garbled(c, f), g.w, proved=rows_proved(c))

    @with_g(g)
    def lin(i, r):
        """Products of shares are taken by the multiplication protocol only."""
        nb = len(i.outw)

        def val():
            return {'m': gfs(r, nb), 'k': [[gfs(r, nb) for _ in range(i.K)] for _ in range(2)],
                    't': {}, 'u': {}, 'e': gfs(r, len(i.p['errs']))}
        env0 = i.env()
        for key in i.desc:
            env0.trsh[key] = 0
        i.mults(env0)
        ids = list(env0.gmsh)

        def at_(v):
            env = i.env(masks=v['m'], keys=v['k'], errs=v['e'])
            env.trsh = dict(v['t'])
            env.gmsh = dict(v['u'])
            out = [y for x in i.gates_at(env) for z in x for y in z]
            for e, s in g.seqs('mult'):
                for pid, vx, vy, *_ in ev._seq(s, env, {}):
                    out += [ev.as_int(y, env) & ev.MASK for y in vx + vy]
            return out
        vs = [val(), val()]
        for v in vs:
            v['t'] = {k: r.randrange(1 << 18) for k in i.desc}
            v['u'] = {k: r.randrange(1 << 18) for k in ids}
        a, b = vs

        def comb(x, y):
            if isinstance(x, dict):
                return {k: comb(x[k], y[k]) for k in x}
            if isinstance(x, list):
                return [comb(p, q) for p, q in zip(x, y)]
            return x ^ y
        zero = comb(a, a)
        r4 = [at_(v) for v in (a, b, comb(a, b), zero)]
        for p, q, s, z in zip(*r4):
            if p ^ q ^ s ^ z:
                return 'shares are multiplied locally'
    c.hunt('degree', [g.res], garbled(c, lin), g.w, proved=shares_linear(g))


@prop('C34')
def c34(c):
    g = gar(c)

    @with_g(g)
    def f(i, r):
        mats = i.matrices()
        masks, keys, tr = bits(i, r)
        F = forms(i, masks, keys, tr)
        ne = len(i.p['errs'])
        errs = r.sample(range(1, 1 << 18), ne)
        used = {}
        got = i.with_values(tr, masks, keys, errs)
        for n in range(len(i.gates)):
            nm = NAME[i.gates[n][0]]
            seen = []
            for row in range(i.rows(n)):
                m = mats[n][row]
                full = all(y is not None for x in m for y in x)
                if full:
                    if not any(y for x in m for y in x):
                        return 'row %d of %s blocks is not masked by a matrix' % (row, nm)
                    if m in seen:
                        return 'two rows of a %s block use one matrix' % nm
                    seen.append(m)
                for e in range(i.M):
                    x = got[n][row][e] ^ ctext(i, n, row, e, F)
                    for k in range(i.K):
                        kk = i.inkey(n, row, k, F)
                        if kk:
                            if m[e][k] is None:
                                return None
                            x ^= ev.fmul(m[e][k], kk)
                    if x not in errs:
                        return 'row %d of %s blocks is not plaintext plus matrix times its keys plus one error' % (
                            row, nm)
                    if x in used:
                        return 'an error share is used in two places (%s and %s)' % (used[x], (nm, row))
                    used[x] = (nm, row)
    c.hunt('rows', [g.res], garbled(c, f), g.w, proved=mats_proved(g) and rows_proved(c))


@prop('C35')
def c35(c):
    g = gar(c)

    @with_g(g)
    def f(i, r):
        """Every gate input is moved to the default points with its mask and both keys."""
        have = set(i.desc.values())
        for b, ws in enumerate(i.outw):
            for what in [('mask',)] + [('key', s, k) for s in range(2) for k in range(i.K)]:
                if ('out', b, what) not in have and any(w in x for _, inp, _ in i.gates for x in inp for w in ws):
                    return 'the labels of a block that is read are not moved to its wires'
        for kind, inp, _ in i.gates:
            for ws in inp:
                for what in [('mask',)] + [('key', s, k) for s in range(2) for k in range(i.K)]:
                    if ('in', tuple(ws), what) not in have:
                        return 'no labels are moved to an input of %s blocks' % NAME[kind]
        # each gate reads only its own inputs, in the right places
        masks, keys, tr = bits(i, r)
        for n, (kind, inp, _) in enumerate(i.gates):
            ins = {tuple(x) for x in inp}
            a = i.with_values(tr, masks, keys)[n]
            b = i.with_values(lambda d: tr(d) if d[0] == 'in' and d[1] in ins else tr(d) ^ 1, masks, keys)[n]
            if a != b:
                return '%s blocks read labels that belong to other inputs' % NAME[kind]
    c.hunt('routing', [g.res] + [s for k in ('trans', 'randtrans') for _, s in g.seqs(k)],
           garbled(c, f, routing=True), g.w, proved=moves_proved(g) and rows_proved(c))


def mats_proved(g):
    """Are the matrices encodings, at the party's own point, of matrices drawn from a generator seeded by the circuit?"""
    try:
        x = g.x
        lm = field(g.cx, 'lpn_mat')
        m = field(lm, 'mats')
        rs = {y for y in subterms(m) if y.op == 'rand'}
        if len(rs) != 1:
            return None
        r, = rs
        rng = r.a[1]
        if rng.op != 'rng' or rng.a[0] != 'seed' or rng.a[1].op != 'at':
            return None
        nonces, site = rng.a[1].a[0], r.a[2]
        used = {y.a[0] for y in subterms(nonces) if y.op == 'param'}
        if not used <= {'circ', 'l'} or not isinstance(site, str):
            return None
        sp = A(length(nonces), lambda q: A(I(4), lambda rr: A(x.M, lambda i: A(x.K, lambda k: GS(x.l, lambda j: gmul(
            lc(defpts(x.n, x.l), gfint(x.id), j),
            mk('rand', r.a[0], mk('rng', 'seed', at(nonces, q)), site, q,
               addn(k, mul(i, x.K), muln(x.M, rr, x.K)), j)))))))
        if sp is m:
            return 'closed form: one field element per row, entry and position, encoded at the own point'
    except Exception:
        if os.environ.get('SG_DEBUG'):
            raise
    return None


@prop('C36')
def c36(c):
    g = gar(c)
    pr = mats_proved(g)
    if pr and not NONF:
        c.ok('encoding', pr)
    w = '; '.join([c.where(GA + 'GarbleContext::new'), g.w])

    @with_g(g)
    def f(i, r):
        parties = {}
        for me in range(min(i.n, i.l + 2)):
            j = Inst(g, {**i.p, 'me': me}, i.blocks, i.gates, i.seed)
            j.run(j.env())
            parties[me] = j.matrices()
        j = Inst(g, {**i.p, 'pid': [9], 'masks': gfs(r, len(i.outw))}, i.blocks, i.gates, i.seed)
        j.run(j.env())
        if int(i.p['me']) in parties and j.matrices() != parties[int(i.p['me'])]:
            return 'the matrices depend on something else than the circuit'
        sec = {}
        for n, (kind, inp, _) in enumerate(i.gates):
            for row in range(i.rows(n)):
                if any(y is None for x in parties[0][n][row] for y in x):
                    continue
                for e in range(i.M):
                    for k in range(i.K):
                        v = [parties[me][n][row][e][k] for me in sorted(parties)]
                        pts = list(range(i.l))
                        for x in range(i.l, len(v)):
                            if interp_at(pts, v[:i.l], x) != v[x]:
                                return 'the parties use matrices that are not encodings of the same matrices'
                        for p in range(len(inp[0])):
                            sec.setdefault((n, row, p), []).append(interp_at(pts, v[:i.l], i.n + p))
        seen = {}
        for (n, row, p), m in sec.items():
            seen.setdefault(tuple(m), []).append((n, row, p))
        for m, us in seen.items():
            for x in range(len(us)):
                for y in range(x):
                    (a, _, p), (b, _, q) = us[x], us[y]
                    if a == b:
                        continue
                    for s in range(min(len(i.gates[a][1]), len(i.gates[b][1]))):
                        if i.gates[a][1][s][p] == i.gates[b][1][s][q]:
                            return 'two gates read by one wire through the same input use one matrix'
    assignment(c, g, w)
    c.hunt('matrices', [g.res], garbled(c, f), w, n=100 if c.tier == 'quick' else 400)


def assignment(c, g, w):
    """Where gates look their matrices up by number: no two gates with a wire in common get matrices of one seed."""
    lm = field(g.cx, 'lpn_mat')
    look, mats = field(lm, 'lookup'), field(lm, 'mats')
    if g.cx.op != 'struct' or lm.op != 'struct' or not rows_proved(c):
        return c.undecided('assignment', 'matrices are not looked up by number')
    q = atom('@q', 'usize')
    rs = {y.a[1] for y in subterms(at(mats, q)) if y.op == 'rand'}
    if len(rs) != 1 or next(iter(rs)).op != 'rng' or next(iter(rs)).a[0] not in ('seed', 'seed64'):
        return c.undecided('assignment', 'matrices are not drawn from a seeded generator')
    rng, = rs
    made = A(length(mats), lambda y: replace(rng.a[1], {q: y}))
    sizes = [(1, 12), (2, 12), (3, 10), (1, 9), (2, 8), (12, 4), (9, 5), (5, 8)]
    n = 80 if c.tier == 'quick' else 400

    def trial(r, k):
        p = g.x.params(r, k, False)
        if k < 2:
            # one wire read very often
            l, G = 1, 300
            gates = [('I', [[0]], [i + 1]) for i in range(G)] if k else [('A', [[0], [i]], [i + 1]) for i in range(G)]
            blocks, nw = [[0]], G + 1
        else:
            l, G = sizes[k % len(sizes)]
            blocks, gates, nw = packed(r, l, ngates=G)
            if l > 4:
                gates = [(a, [[r.choice((j, nw - 1)) for j in range(l)] for _ in b], o) for a, b, o in gates]
        p.update(l=l, n=max(p['n'], l + 1), klen=1, mlen=1, circ=circval(blocks, gates, nw, l))
        env = Env(p, seed=r.randrange(1 << 30))
        no = [ev.as_int(y, env) for y in ev._seq(look, env, {})]
        if len(no) < len(gates):
            return 'gates without a matrix', p
        seeds = [repr(ev.canon(y)) for y in ev._seq(made, env, {})]
        if not all(0 <= y < len(seeds) for y in no):
            return 'a gate is given one of more matrices than there are', p
        seen = {}
        for a, (kind, inp, _) in enumerate(gates):
            for s in range(len(inp)):
                for j, x in enumerate(inp[s]):
                    b = seen.setdefault((seeds[no[a]], s, j, x), a)
                    if b != a:
                        return 'gates %d and %d read wire %d through the same input at position %d and use one matrix' % (b, a, x, j), p
    c.hunt('assignment', [look, mats], trial, w, 'two gates that read one wire at one place use the same matrix', n=n,
           bounded='no reuse in %d circuits of up to 300 gates' % n)


# ---------------------------------------------------------------- closed forms
def free_mats(g, cx):
    """The context with arbitrary matrices in place of the derived ones."""
    x = g.x
    m = atom('mats', nd(4))
    q = atom('nmats', 'usize')
    FACTS.append(q)
    lk = atom('look', 'std::vec::Vec<usize>')
    ARRLEN[lk] = g.G_
    mats = A(q, lambda a: A(I(4), lambda r: A(x.M, lambda i: A(x.K, lambda k: at(at(at(at(m, a), r), i), k)))))
    g.mat = lambda gg, r, i, k: at(at(at(at(m, at(lk, gg)), r), i), k)
    lm = field(cx, 'lpn_mat')
    return setfield(cx, 'lpn_mat', mk('struct', lm.a[0], tuple((n, {'mats': mats, 'lookup': lk}[n])
                                                              for n, _ in lm.a[1])))


def is_kind(g, i, kind):
    return isv(at(field(g.circ, 'gates'), i), PG + kind)


def ncount(g, i, kind):
    v = fresh(i)
    return count(i, v, is_kind(g, v, kind))


def case_gate(g, i, f):
    ga = at(field(g.circ, 'gates'), i)
    return case(ga, {PG + k: f(k) for k in ('And', 'Inv', 'Xor')})


def spec_rows(g):
    """Garbled tables: encoded label plus matrix times the keys of the row plus errors."""
    x = g.x
    K, M = x.K, x.M
    enc = p_rs(g.it, [add(K, I(1)), M], None)

    def gate(i):
        inv = ncount(g, i, 'Inv')
        base = sub(mul(I(2), i), inv)
        b = add(g.I_, i)
        mo = at(g.masks, b)
        eb = sub(muln(I(4), M, i), muln(I(2), M, inv))

        def tin(side, col):
            return mk('trsh', mk('child', mk('child', g.pid, I(3)), add(base, I(side))), col)

        def tmask(side):
            return tin(side, mul(I(2), K))

        def tkey(side, s, k):
            return tin(side, add(mul(I(s), K), k))

        def key(s, k):
            return at(at(at(g.ka, I(s)), k), b)

        def row(kind, rr):
            i_, j_ = (rr, None) if kind == 'Inv' else (rr // 2, rr % 2)
            bit = lambda v, q: gadd(v, GONE) if q else v
            if kind == 'Inv':
                v = bit(bit(tmask(0), i_), 1)
            elif kind == 'Xor':
                v = bit(bit(gadd(tmask(0), tmask(1)), i_), j_)
            else:
                v = gmul(bit(tmask(0), i_), bit(tmask(1), j_))
            v = gadd(v, mo)

            def el(e):
                r = gmul(at(at(enc, e), K), gadd(mo, v))
                r = gadd(r, GS(K, lambda q: gmul(at(at(enc, e), q),
                                                 gadd(key(0, q), gmul(v, gadd(key(0, q), key(1, q)))))))
                for side, s in [(0, i_)] + ([(1, j_)] if j_ is not None else []):
                    r = gadd(r, GS(K, lambda k: gmul(g.mat(i, I(rr), e, k), tkey(side, s, k))))
                return gadd(r, at(g.errs, addn(eb, mul(I(rr), M), e)))
            return A(M, el)
        return case_gate(g, i, lambda kind: lst(*[row(kind, q) for q in range(2 if kind == 'Inv' else 4)]))
    return A(g.G_, gate)


class Rec(list):
    """A list that remembers which elements were read."""
    def __init__(self, v):
        super().__init__(v)
        self.read = set()

    def __getitem__(self, i):
        if isinstance(i, int):
            self.read.add(i)
        return super().__getitem__(i)


def total(g, pos):
    s = I(0)
    for e in g.evs:
        if e.kind in pos:
            s = add(s, length(flat(loopseq(e, e.args[pos[e.kind]]))))
    return s


def spec_draws(g):
    """Which shares each sub-protocol takes: consecutive ranges, in the order of the work."""
    x = g.x
    n, t, l, K = x.n, x.t, x.l, x.K
    w = add(mul(I(2), K), I(1))
    nin = sub(mul(I(2), g.G_), ncount(g, g.G_, 'Inv'))
    c1, c2 = [add(I(1), fdiv(sub(q, I(1)), l)) for q in (g.nb, nin)]

    def rng(q, lo, m):
        return A(m, lambda k: at(q, add(lo, k)))
    out = {'randtrans': [], 'mult': []}
    rt, zt = mul(add(n, t), w), muln(I(2), n, w)
    for cnt_, lo in ((c1, I(0)), (c2, c1)):
        out['randtrans'].append(A(cnt_, lambda b: tup(rng(g.rnds, mul(add(lo, b), rt), rt),
                                                      rng(g.zs, mul(add(lo, b), zt), zt))))
    K1 = add(K, I(1))

    def at_gate(kind, off, m):
        def gate(i):
            # earlier gates took K+1 each, AND gates 2(K+1)+1 more
            pre = add(mul(K1, i), mul(add(mul(I(2), K1), I(1)), ncount(g, i, 'And')))
            r0, z0 = [addn(mul(add(c1, c2), q), pre, off) for q in (rt, zt)]
            return case_gate(g, i, lambda k: lst(tup(rng(g.rnds, r0, m), rng(g.zs, z0, m))) if k == kind else EMPTY)
        return flat(A(g.G_, gate))
    out['mult'] = [at_gate('And', mul(I(3), K1), I(1)), at_gate('And', I(0), mul(I(3), K1)),
                   at_gate('Xor', I(0), K1), at_gate('Inv', I(0), K1)]
    return out


@prop('C28')
def c28(c):
    g = gar(c)
    it = c.interp({**LAGP, **NETP, **IDP(c), **GARP})
    d, _ = c.call(PP + 'PreProc::describe', [g.circ, g.x.term], it=it)
    w = c.where(PP + 'PreProc::describe') + '; ' + g.w
    x = g.x
    f = {k: field(d, k) for k in ('masks', 'keys', 'randoms', 'zeros', 'errors')}

    def dom(r, k):
        return g.inst(r, k).env()
    c.eq('masks', f['masks'], g.nb, dom, w, 'the described number of masks is not one per block')
    c.eq('keys', f['keys'], tup(I(2), x.K, g.nb), dom, w, 'the described keys are not two per block and coordinate')
    c.eq('errors', f['errors'], sub(muln(I(4), x.M, g.G_), muln(I(2), x.M, ncount(g, g.G_, 'Inv'))), dom, w,
         'the described number of error shares is not one per entry of the garbled tables')
    proved = None
    sp = spec_draws(g)
    forms_ = {k: list(v) for k, v in sp.items()}
    for e in g.evs:
        if e.kind in forms_:
            q = 1 if e.kind == 'randtrans' else 3
            s = loopseq(e, tup(e.args[q], e.args[q + 1]))
            if s in forms_[e.kind]:
                forms_[e.kind].remove(s)
            else:
                break
    else:
        if not any(forms_.values()) and total(g, {'mult': 3, 'randtrans': 1}) is f['randoms'] and \
                total(g, {'mult': 4, 'randtrans': 2}) is f['zeros']:
            proved = 'closed forms of the shares taken are consecutive ranges that add up to the described counts'

    def trial(r, k):
        i = g.inst(r, k)
        cnt_ = evalt(d, i.env())
        cnt_ = dict(cnt_[2])
        i.p.update(rnds=[('rnd', q) for q in range(cnt_['randoms'])], zs=[('zero', q) for q in range(cnt_['zeros'])],
                   errs=Rec(gfs(r, cnt_['errors'])))
        env = i.env()
        try:
            i.run(env)
            i.mults(env)
            i.gates_at(env)
        except Bad:
            return None
        except Undef as e:
            if str(e) in ev.FATAL:
                return 'garbling runs out of material or fails: %s' % e, i.p
            raise
        for nm, q, kind in (('random', 'rnds', 'randoms'), ('zero', 'zs', 'zeros')):
            used = []
            for kd, p in (('randtrans', 1), ('mult', 3)):
                for e, s in g.seqs(kd):
                    for v in ev._seq(s, env, {}):
                        used += v[p + (nm == 'zero')]
            if len(used) != len(set(used)):
                return 'a %s share is used twice' % nm, i.p
            if len(used) != cnt_[kind]:
                return '%d %s shares are described, %d used' % (cnt_[kind], nm, len(used)), i.p
            if any(v[0] != nm[:4].replace('rand', 'rnd') for v in used):
                return 'a share of the wrong kind is used', i.p
        if len(i.p['errs'].read) != cnt_['errors']:
            return '%d error shares are described, %d used' % (cnt_['errors'], len(i.p['errs'].read)), i.p
    c.hunt('shares', [g.res, d] + [s for k in ('mult', 'randtrans') for _, s in g.seqs(k)], trial, w, proved=proved)


COMB = C + 'math::Combination'


def spec_moves(g):
    """What is moved where: every block's labels to its wires' points, then for every gate input the labels of its
    wires to the default points; with the random pairs made for just that move."""
    x = g.x
    n, l, K = x.n, x.l, x.K
    nin = sub(mul(I(2), g.G_), ncount(g, g.G_, 'Inv'))
    w = add(mul(I(2), K), I(1))
    gates = field(g.circ, 'gates')

    def comb(s):
        return mk('struct', COMB, (('0', s),))

    def defs(m):
        return A(m, lambda j: gfint(add(n, j)))

    def wpos(ws):
        return A(length(ws), lambda j: gfint(addn(n, l, at(ws, j))))

    def out(i, k):
        return field(vfield(at(gates, i), PG + k, 0), 'out')

    def inp(i, k, side):
        return at(field(vfield(at(gates, i), PG + k, 0), 'inp'), I(side))

    def first(i, gate):
        if not gate:
            ws = at(field(g.circ, 'inputs'), i)
            m = length(ws)
            return defs(m), wpos(ws), comb(A(m, lambda j: j))
        m = case_gate(g, i, lambda k: length(out(i, k)))
        return defs(m), case_gate(g, i, lambda k: wpos(out(i, k))), comb(A(m, lambda j: j))

    def uniq(ws):
        return mk('uniq', ws)

    def second(ws):
        u = uniq(ws)
        idx = mk('map', A(length(u), lambda j: tup(at(u, j), j)))
        return wpos(u), defs(length(ws)), comb(A(length(ws), lambda j: mk('mget', idx, at(ws, j))))

    def st(o, nn, f):
        return mk('struct', CO + 'SharingTransform', (('o', o), ('n', nn), ('f', f)))

    def tt(o, nn, f):
        return tup(tup(o, nn), f)

    def firsts(f):
        return cat(A(g.I_, lambda i: f(*first(i, False))), A(g.G_, lambda i: f(*first(i, True))))

    def seconds(f):
        return flat(A(g.G_, lambda i: case_gate(g, i, lambda k: lst(*[f(inp(i, k, s)) for s in
                                                                      range(1 if k == 'Inv' else 2)]))))
    blockof = mk('map', cat(
        flat(A(g.I_, lambda b: (lambda ws: A(length(ws), lambda j: tup(at(ws, j), b)))(at(field(g.circ, 'inputs'), b)))),
        flat(A(g.G_, lambda i: case_gate(g, i, lambda k: A(length(out(i, k)), lambda j: tup(at(out(i, k), j),
                                                                                          add(g.I_, i))))))))

    def select(ws):
        u = uniq(ws)
        return A(w, lambda q: GS(length(u), lambda j: gmul(
            lc(wpos(u), gfint(x.id), j),
            mk('trsh', mk('child', mk('child', g.pid, I(2)), mk('mget', blockof, at(u, j))), q))))
    keys = flat(flat(A(I(2), lambda i: A(K, lambda j: A(g.nb, lambda b: at(at(at(g.ka, i), j), b))))))

    def pairs(kind, k, N, v):
        """Row of the random pairs for move number v."""
        row = lambda q, j: A(w, lambda e: mk('rtsh', kind, mk('child', mk('child', g.pid, I(k)), q), j, e))
        last = fdiv(sub(N, I(1)), l)
        return at(flat(A(add(I(1), last), lambda q: ite(
            eq0(sub(last, q)), A(imin(sub(N, mul(q, l)), l), lambda j: row(q, j)), A(l, lambda j: row(q, j))))), v)
    tr, rt = [], []
    for k, N, sh, sts, tts in (
            (0, g.nb, lambda b: cat(A(mul(I(2), K), lambda q: at(keys, add(b, mul(q, g.nb)))), lst(at(g.masks, b))),
             firsts(st), firsts(tt)),
            (1, nin, lambda b: A(w, lambda q: at(flat(seconds(select)), add(q, mul(w, b)))), seconds(lambda ws: st(*second(ws))),
             seconds(lambda ws: tt(*second(ws))))):
        tr.append(A(N, lambda v: tup(sh(v), pairs('lo', k, N, v), pairs('hi', k, N, v), at(sts, v))))
        rt.append(A(add(I(1), fdiv(sub(N, I(1)), l)), lambda q: (lambda m: mk(
            'struct', CO + 'RandSharingTransform', tuple((f, A(m, lambda j: sel(at(tts, add(j, mul(q, l)))))) for f, sel in (
                ('o', lambda t: field(field(t, '0'), '0')), ('n', lambda t: field(field(t, '0'), '1')),
                ('f', lambda t: field(t, '1'))))))(imin(l, sub(N, mul(q, l))))))
    return tr, rt


def moves_proved(g):
    try:
        tr, rt = spec_moves(g)
        a = [loopseq(e, tup(*e.args[1:5])) for e in g.evs if e.kind == 'trans']
        b = [loopseq(e, e.args[3]) for e in g.evs if e.kind == 'randtrans']
        if os.environ.get('SG_DEBUG'):
            for p, q in zip(a + b, tr + rt):
                if p is not q:
                    p, q = str(p), str(q)
                    k = next((k for k in range(min(len(p), len(q))) if p[k] != q[k]), 0)
                    print('DIFF', len(p), len(q), k, '\n   ', p[max(0, k - 200):k + 200], '\n   ', q[max(0, k - 200):k + 200])
        if len(a) == 2 and len(b) == 2 and all(p is q for p, q in zip(a + b, tr + rt)):
            return 'closed forms of all transformations and of the random pairs they use'
    except Exception:
        if os.environ.get('SG_DEBUG'):
            raise
    return None
