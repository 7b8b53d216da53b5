"""Sources of randomness (C44), spawned tasks (C45), public decisions (C46)."""
from idsp import *
import sharingp
import fieldp
import corep
import preprocp
import circuitp
import netp
from check import Check

BIG = 64        # bits a seed must at least carry


class Probe(Check):
    """Runs the analyses of another property and keeps what was analysed instead of deciding anything."""
    def __init__(self, c, **flags):
        super().__init__(c.pid, c.p, c.tier, c.seed)
        self.c = c
        self.flags = flags
        self.its = []
        self.doms = []

    def interp(self, prims=None, opaque=()):
        it = super().interp(prims, opaque)
        for k, v in self.flags.items():
            setattr(it, k, v)
        self.its.append(it)
        return it

    def call(self, path, args, prims=None, opaque=(), it=None):
        r, it = super().call(path, args, prims, opaque, it)
        self.c.analysed |= it.analysed
        return r, it

    def eq(self, name, code, spec, dom=None, *a, **k):
        if dom is not None:
            self.doms.append(dom)

    def judge(self, name, code, specs, dom=None, *a, **k):
        if dom is not None:
            self.doms.append(dom)

    def hunt(self, *a, **k):
        pass

    def ok(self, *a, **k):
        pass
    undecided = require = ok

    def bad(self, key, msg, where, detail=None):
        if key.startswith('anchor:'):
            self.c.bad(key, msg, where, detail)


def probe(c, f, **flags):
    """The interpreters of another property's analysis."""
    p = Probe(c, **flags)
    try:
        f(p)
    except Violation:
        raise
    except Exception as e:
        if os.environ.get('SG_DEBUG'):
            raise
        c.undecided(f.__name__, 'analysis gave up: %s %s' % (type(e).__name__, e))
    return p


# ---------------------------------------------------------------- C44
def gens(t):
    """Generators of all draws in a term."""
    return [x.a[1] for x in subterms(t) if x.op in ('rand', 'randr')]


SMALL = {'bool': 1, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'char': 21, 'gf': 18, 'f32': 24}


def verdict(g, made, drawn):
    """None if a generator is a fresh cryptographic one, else what it is; '?' if unknown."""
    if g.op in ('ite',):
        v = [verdict(x, made, drawn) for x in g.a[1:]]
        return next((x for x in v if x and x != '?'), next((x for x in v if x), None))
    if g.op != 'rng':
        return '?'
    k = g.a[0]
    if k in ('thread', 'entropy', 'os'):
        return None
    if k == 'from':
        return verdict(g.a[1], made, drawn)
    if k == 'fixed':
        return 'a generator with a fixed sequence'
    if k == 'copy':
        o = verdict(g.a[1], made, drawn)
        if o:
            return o
        ev_ = [e for e in made if e.args[0] is g]
        if any(e.loops for e in ev_) or g.a[1] in drawn:
            return 'a copy of another generator\'s state'
        return None
    if k in ('seed', 'seed64'):
        s = g.a[1]
        if contains(s, lambda x: x.op in ('unk', 'call', 'opaque')):
            return '?'
        src = [x for x in subterms(s) if x.op in ('rand', 'randr')]
        fresh_ = [x for x in src if x.op == 'rand' and verdict(x.a[1], made, drawn) is None]
        if not fresh_:
            return 'a generator with a fixed or publicly derived seed'
        if len(fresh_) == 1 and SMALL.get(fresh_[0].a[0], 999) < BIG and not any(b.op in terms.BINDERS for b in subterms(s)):
            return 'a generator seeded with only %d bits' % SMALL[fresh_[0].a[0]]
        for e in made:
            if e.args[0] is g and any(v not in s.fv for v, _ in e.loops):
                return 'generators all started from the same seed'
        return None
    return '?'


def draws(c, what, its, where, atleast, skip=lambda e: False):
    """Every draw in the analysed runs comes from a fresh cryptographic generator."""
    made = [e for it in its for e in it.events if e.kind in ('rngnew', 'rngcopy')]
    ds = [e for it in its for e in it.events if e.kind == 'rand' and not skip(e)]
    drawn = {e.args[0].a[1] for e in ds}
    sites = {}
    for e in ds:
        v = verdict(e.args[0].a[1], made, drawn)
        k = '%s: draws in %s' % (what, strip(e.fn))
        o = sites.get(k)
        if o is None or v and (not o[0] or o[0] == '?'):
            sites[k] = (v, e)
    for k, (v, e) in sorted(sites.items()):
        if v is None:
            c.ok(k, 'generator of every draw is the thread\'s, the system\'s or seeded from it')
        elif v == '?':
            c.undecided(k, 'generator not understood: %s' % str(e.args[0].a[1])[:100])
        else:
            c.bad(k, 'values that protect secrets are drawn from %s' % v, '%s (%s)' % (e.loc, strip(e.fn)))
    c.cov['draws'] = c.cov.get('draws', 0) + len(ds)
    if len(sites) < atleast:
        if any(why_unknown(x) for it in its for e in it.events for x in e.args if isinstance(x, T)):
            c.undecided(what, 'draws not found')
        else:
            c.undecided(what, 'fewer draws than expected (%d)' % len(sites))


def given(c):
    """Functions that are handed a generator use that one and no other."""
    p = probe(c, PROPS['C13'])
    own = [e for it in p.its for e in it.events if e.kind == 'rand']
    made = [e for it in p.its for e in it.events if e.kind in ('rngnew', 'rngcopy')]
    drawn = {e.args[0].a[1] for e in own}
    bad = [(e, verdict(e.args[0].a[1], made, drawn)) for e in own if e.args[0].a[1] is not mk('rng', 'thread')]
    for e, v in bad:
        if v and v != '?':
            c.bad('sharing: draws in ' + strip(e.fn), 'values that protect secrets are drawn from %s instead of the given generator' % v,
                  '%s (%s)' % (e.loc, strip(e.fn)))
            return
    if own and not bad:
        c.ok('sharing: draws use the given generator', '%d draws' % len(own))
    else:
        c.undecided('sharing', 'draws not understood')


def elements(c):
    W = c.where(C + 'math::galois::GF::rand')
    it = c.interp()
    g = mk('rng', 'thread')
    m, _ = c.call(C + 'math::galois::GF::rand', [mk('ref', it.alloc(g), ())], it=it)
    ds = [e for e in it.events if e.kind == 'rand']
    v = [verdict(e.args[0].a[1], [e for e in it.events if e.kind in ('rngnew', 'rngcopy')], {g}) for e in ds]
    b = [x for x in v if x and x != '?']
    if b:
        c.bad('field elements', 'random field elements are drawn from %s' % b[0], W)
    elif ds and not any(v):
        c.ok('field elements', 'drawn from the given generator')
    else:
        c.undecided('field elements', 'draws not understood')


CORE = (('degree reduction and multiplication', 'C23', 1), ('transformation', 'C25', 1), ('random pairs', 'C26', 0),
        ('random, zero and bit shares', 'C27', 3))


@prop('C44')
def c44(c):
    def run(what, f, w, k=0, skip=lambda e: False):
        return what, lambda c: draws(c, what, probe(c, f).its, c.where(w), k, skip)

    def garbling(c):
        # draws of the public matrices are seeded publicly on purpose (they must agree at all parties)
        g = probe(c, gar)
        mats = public_matrices(g)
        draws(c, 'garbling', g.its, c.where(GA + 'garble'), 0, skip=lambda e: e.args[0].a[1] in mats)
    isolated(c, [('sharing', given), ('field', elements)] + [run(what, PROPS[pid], CO + 'mult', k) for what, pid, k in CORE] +
             [run('preprocessing', preproc_all, PP + 'preproc'), ('garbling', garbling)])


def public_matrices(p):
    """Generators whose draws end up in the matrices only."""
    out = set()
    for it in p.its:
        for e in it.events:
            if e.kind == 'rand' and strip(e.fn).startswith(GA) and e.args[0].a[1].op == 'rng' and e.args[0].a[1].a[0] in ('seed', 'seed64'):
                out.add(e.args[0].a[1])
    return out


# ---------------------------------------------------------------- C45
class At:
    """A point of a run: condition and surrounding loops."""
    def __init__(self, pc, loops):
        self.pc, self.loops = pc, loops


def joins(c, what, it, dom, where, only=lambda tk: True):
    sp = [e for e in it.events if e.kind == 'spawn' and only(e.args[1])]
    jn = [e for e in it.events if e.kind == 'join']
    ck = [e for e in it.events if e.kind in ('unwrap', 'panic') and any(x.op == 'joined' for a in (e.args[0], e.pc) for x in subterms(a))
          and all(only(k) for k in e.task)]
    c.cov['spawn_sites'] = c.cov.get('spawn_sites', 0) + len(sp)
    c.cov['join_sites'] = c.cov.get('join_sites', 0) + len(jn)

    def started():
        return [(e, loopseq(e, e.args[1])) for e in sp]

    def joined():
        return [(e, loopseq(e, e.args[0].a[1])) for e in jn]

    def tested():
        out = []
        for e in ck:
            xs = {x for a in (e.args[0], e.pc) for x in subterms(a) if x.op == 'joined'}
            for x in sorted(xs, key=str):
                # what happens when only this task fails
                only = {y: TRUE if y is not x else FALSE for y in xs}
                cond = replace(e.args[0], only)
                fails = band(replace(e.pc, only), bnot(cond) if e.kind == 'unwrap' else cond)
                if fails is not FALSE:
                    out.append((e, loopseq(At(fails, e.loops), x.a[0])))
        return out
    ss, js, ts = started(), joined(), tested()
    for name, have, msg in (('awaited', js, 'is not awaited before the protocol returns'),
                            ('failures', ts, 'can fail without failing the protocol')):
        ok = {}
        for e, s in ss:
            if any(s is j for _, j in have):
                ok[e] = 'normal form'
        # handles that went somewhere the analysis does not follow
        lost = {x.a[1] for e in it.events if e.kind in ('lost', 'await') for a in e.args if isinstance(a, T) for x in subterms(a) if x.op == 'joinh'}
        gone = {t.a[0] for t in lost}
        rest = [(e, s) for e, s in ss if e not in ok and e.args[1].a[0] not in gone]
        left = [e for e, s in ss if e.args[1].a[0] in gone and e not in ok]
        if left:
            c.undecided('%s: %s' % (what, name), 'a task handle is passed to something not analysed (task started at %s)' % left[0].loc)
            if not rest:
                continue

        def trial(r, k):
            env = dom(r, k)
            got = set()
            for e, j in have:
                got |= {ev.canon(v) for v in ev._seq(j, env, {})}
            for e, s in rest:
                for v in ev._seq(s, env, {}):
                    if ev.canon(v) not in got:
                        return 'the task started at %s %s' % (e.loc, msg), {k: v for k, v in env.params.items() if isinstance(v, int)}
        c.hunt('%s: %s' % (what, name), [s for _, s in ss + have], trial,
               rest[0][0].loc if rest else where, None,
               proved=not rest and 'every task started at the %d sites is joined%s' % (len(ss), '' if name == 'awaited' else ' and its failure is passed on'))


def ordered(c, what, ts, trial, where):
    """Results are not taken in the order in which tasks happen to finish."""
    unordered = any(contains(t, lambda x: x.op == 'perm') for t in ts)
    c.hunt(what + ': order', ts, trial, where, 'results are assembled in the order in which tasks finish',
           proved=not unordered and 'no result depends on the order in which tasks finish')


def o_task(t, a, env, loc):
    return ('task', repr(a[0])) + tuple(ev.canon(ev._ev(x, env, loc)) if isinstance(x, T) else x for x in a[1:])


def o_joinh(t, a, env, loc):
    return ('joinh', ev._ev(a[0], env, loc), ev._ev(a[1], env, loc))


def o_perm(t, a, env, loc):
    s = list(ev._seq(a[0], env, loc))
    o = sorted(range(len(s)), key=lambda i: env.rnd('arrival', env.salt, a[1], i))
    return [s[i] for i in o]


terms.OPLEN['perm'] = lambda t: length(t.a[0])
ev.OPS['joinh'] = o_joinh
ev.OPS['perm'] = o_perm
ev.OPS['taskres'] = lambda t, a, env, loc: ev._ev(a[0], env, loc)[1]
ev.OPS['taskof'] = lambda t, a, env, loc: ev._ev(a[0], env, loc)[2]
ev.OPS['task'] = o_task
ev.OPS['joined'] = lambda t, a, env, loc: True


def pre_tasks(c):
    p = Probe(c, joinfail=True)
    x, it, m, dom, ks, pid = preproc_all(p)
    W = c.where(PP + 'preproc')
    joins(c, 'preprocessing', it, dom, W)

    def trial(r, k):
        env = dom(r, k)
        a = ev.canon(ev._ev(m, env, {}))
        for salt in (1, 2, 3):
            e2 = Env(env.params, seed=env.seed)
            e2.salt = salt
            if ev.canon(ev._ev(m, e2, {})) != a:
                return 'the material depends on which task finishes first', {}
    ordered(c, 'preprocessing', [m], trial, W)


def gar_tasks(c):
    p = Probe(c, joinfail=True)
    g = Gar(p)
    W = c.where(GA + 'garble')
    joins(c, 'garbling', g.it, lambda r, k: g.inst(r, k).env(), W)

    def gates(i, salt):
        env = i.env()
        env.salt = salt
        try:
            i.run(env)
            i.mults(env)
            return ev.canon(i.gates_at(env))
        except Bad as e:
            return 'bad', str(e)

    def differs(i):
        # a run that is wrong in the order in which the tasks were started is not wrong because of the order
        a = gates(i, None)
        return a[:1] != ('bad',) and any(gates(i, salt) != a for salt in (1, 2, 3))

    def trial(r, k):
        i = g.inst(r, k)
        # values that happen to coincide do not coincide when drawn again
        if differs(i) and differs(i.redrawn(r)) and differs(i.redrawn(r)):
            return 'the garbled gates depend on which task finishes first', {}
    ordered(c, 'garbling', [g.res] + [x for e in g.evs for x in e.args if isinstance(x, T)], trial, W)


def core_tasks(what, pid):
    def f(c):
        p = probe(c, PROPS[pid], joinfail=True)
        for it in p.its:
            if any(e.kind == 'spawn' for e in it.events):
                joins(c, what, it, p.doms[0], c.where(CO + 'mult'))
        c.ok(what + ': tasks', '%d started' % sum(e.kind == 'spawn' for it in p.its for e in it.events))
    return what, f


def net_tasks(c):
    p = Probe(c, joinfail=True)
    t = netp.TcpNet(p)
    setup = {k.a[0] for e in t.it.events if e.kind in ('bind', 'accept', 'dial') for k in e.task}

    def dom(r, k):
        n = r.randrange(3, 7)
        me = r.randrange(n)
        return Env({'addrs': ['h%d:%d' % (i, 4000 + 7 * i) for i in range(n)], 'me': me, '@fail': 0,
                    '@instream': lambda s: [0] * 16}, k)
    joins(c, 'connections', t.it, dom, c.where(NW + 'setup_tcp_network'), lambda tk: tk.a[0] in setup)


@prop('C45')
def c45(c):
    isolated(c, [('preprocessing', pre_tasks), ('garbling', gar_tasks), ('connections', net_tasks)] +
             [core_tasks(what, pid) for what, pid, _ in CORE])


TECH['C44'] = 'provenance analysis of generators: every draw of the dataflow summaries is traced to the construction of its generator'
NOTE['C44'] = ('Static analysis; covers every draw reachable from the public entry points of the protocols. The matrices of the '
               'garbling, which must agree at all parties, and dummy material are exempt.')
TECH['C45'] = ('typestate of task handles: every started task is matched with the point that awaits it and with the point where '
               'its failure is passed on, as normal forms over the loops around both')
NOTE['C45'] = 'Static analysis; a handle that goes into code not followed by the analysis is reported as undecided.'


# ---------------------------------------------------------------- C46
SECRET = {'vx', 'vy', 'rnd', 'rndn', 'zero', 'rnds', 'zs', 'masks', 'keys', 'errs'}
HIDDEN = {'recvd', 'msgp', 'deser', 'trsh', 'gmsh', 'rtsh', 'shares', 'mulsh', 'rand', 'randr'}
ORDER = {'perm', 'mapentries', 'selected'}
COMM = ('send', 'recv', 'recveach', 'mult', 'trans', 'randtrans', 'proto')


def sizes(t):
    """What the number of bytes or elements of a value depends on."""
    if t.op == 'ser':
        return sizes(t.a[0])
    if t.op in ('tup', 'opt', 'res'):
        return [y for x in t.a if isinstance(x, T) for y in sizes(x)]
    if t.op == 'struct':
        return [y for _, x in t.a[1] for y in sizes(x)]
    if t.op == 'ite':
        return [t.a[0]] + sizes(t.a[1]) + sizes(t.a[2])
    if t.op in ('int', 'str', 'lit', 'gf', 'gfint', 'nothing', 'bool'):
        return []
    return [length(t)]


def decision(e):
    """Who gets how much under which identifier, over the loops around a communication."""
    a = e.args
    if e.kind == 'send':
        d = [field(a[1], 'proto_id'), field(a[1], 'to')] + sizes(field(a[1], 'data'))
    elif e.kind == 'recv':
        d = [a[0]]
    elif e.kind == 'recveach':
        d = list(a)
    elif e.kind == 'proto':
        d = list(a[1:])
    elif e.kind == 'randtrans':
        d = [a[0]] + [length(x) for x in a[1:3]]
    else:
        d = [a[0], a[-1]] + [length(x) for x in a[1:4]]
    return loopseq(e, tup(*d))


def shape(t, d=0):
    """Terms on which the length of a nested sequence depends, down to depth d."""
    a = t.a
    if t.op == 'arr':
        return [a[0]] + (shape(a[2], d - 1) if d else [])
    if t.op == 'flat':
        return shape(a[0], d + 1)
    if t.op == 'cat':
        return [y for x in a for y in shape(x, d)]
    if t.op == 'lst':
        return [y for x in a for y in shape(x, d - 1)] if d else []
    if t.op == 'ite':
        return [a[0]] + shape(a[1], d) + shape(a[2], d)
    if t.op == 'case':
        return [a[0]] + [y for _, x in a[1] for y in shape(x, d)]
    if t.op == 'at':
        return [a[1]] + shape(a[0], d + 1)
    if t.op == 'param' or t.op in HIDDEN:
        return []
    return [t]


def private(t):
    """Secret or order-dependent parts of a term; lengths of secret sequences are public."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('len', 'dim'):
            todo += shape(x.a[0], x.a[1] if x.op == 'dim' and isinstance(x.a[1], int) else 0)
            continue
        if x.op == 'param' and x.a[0] in SECRET or x.op in HIDDEN or x.op in ORDER:
            if not (x.op in ('rand', 'randr') and x.a[1].op == 'rng' and x.a[1].a[0] in ('seed', 'seed64') and not private(x.a[1].a[1])):
                out.append(x)
                continue
        for y in x.a:
            stack = [y]
            while stack:
                z = stack.pop()
                if isinstance(z, T):
                    todo.append(z)
                elif isinstance(z, tuple):
                    stack.extend(z)
    return out


def scramble(v, salt, key):
    if isinstance(v, list):
        return [scramble(x, salt, key + (i,)) for i, x in enumerate(v)]
    return ev.Opq(('salted', salt) + key, None)


def o_secret(t, a, env, loc):
    vals = tuple(ev.canon(ev._ev(x, env, loc)) if isinstance(x, T) else x for x in a)
    return ev.Opq(('salted', env.salt, t.op) + vals, env)


def public_run(c, what, its, dom, where):
    ds = [(e, decision(e)) for it in its for e in it.events if e.kind in COMM]
    c.cov['communications'] = c.cov.get('communications', 0) + len(ds)
    if not ds:
        c.undecided(what, 'no communication found')
        return
    for k in HIDDEN - {'rand', 'randr', 'deser'}:
        ev.OPS[k] = o_secret
    by = {}
    for e, d in ds:
        by.setdefault('%s: %s in %s' % (what, e.kind, strip(e.fn)), []).append((e, d))
    for name, xs in sorted(by.items()):
        bad = [(e, d) for e, d in xs if private(d)]

        def trial(r, k):
            env = dom(r, k)
            for e, d in bad:
                seen = {}
                for salt in ('a', 'zero', 'one', 'b', 'c'):
                    p = {q: scramble(v, salt, (q,)) if q in SECRET else v for q, v in env.params.items()}
                    e2 = Env(p, seed=env.seed)
                    e2.salt = salt
                    try:
                        v = ev.canon(ev._seq(d, e2, {}))
                    except ev.Undef as x:
                        if salt in ('zero', 'one'):
                            continue
                        raise
                    seen.setdefault(repr(v), salt)
                if len(seen) > 1:
                    return ('communication at %s depends on secrets, randomness or the order of unordered data' % e.loc,
                            {'runs': [x[:300] for x in list(seen)[:2]]})
        c.hunt(name, [d for _, d in xs], trial, bad[0][0].loc if bad else where, None,
               proved=not bad and 'identifier, recipient, size and condition of %d communications mention public values only' % len(xs))


class Pass(Probe):
    """Keeps only the decision about the order of packed gates."""
    def require(self, name, cond, msg, where):
        if name == 'same everywhere':
            self.c.require('packed circuit: ' + name, cond, msg, where)


@prop('C46')
def c46(c):
    def core(what, pid):
        def f(c):
            p = probe(c, PROPS[pid])
            dom = p.doms[0] if p.doms else lambda r, k: Env({}, k)
            public_run(c, what, p.its, dom, c.where(CO + 'mult'))
        return what, f

    def pre(c):
        x, it, m, dom, ks, pid = preproc_all(Probe(c))
        public_run(c, 'preprocessing', [it], dom, c.where(PP + 'preproc'))

    def garbling(c):
        g = Gar(Probe(c))
        public_run(c, 'garbling', [g.it], lambda r, k: g.inst(r, k).env(), c.where(GA + 'garble'))

    def packing(c):
        PROPS['C39'](Pass(c))
    isolated(c, [core(what, pid) for what, pid, _ in CORE + (('leader', 'C24', 0),)] + [('preprocessing', pre), ('garbling', garbling), ('packed circuit', packing)])


TECH['C46'] = ('dependence analysis: condition, repetition, identifier, recipient and size of every communication as a function of the '
               'parameters, which must not mention secrets, draws, received data or hash order')
NOTE['C46'] = ('Static analysis; terms that mention a secret are decided by evaluating them under different secrets with equal public values.')
