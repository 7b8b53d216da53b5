"""The shipped programs: configuration (C40), phases of the benchmarks (C41), reports (C42) and
initialisation of the field (second half of C04)."""
import re as _re
from netspec import *
from garblep import gar
from preprocp import preproc_all
import idsp

PP = C + 'protocol::preproc::'
GP_ = C + 'protocol::garble::'
BINS = ('garble', 'preproc', 'preproc_size')
BENCH = ('garble', 'preproc')
CTX = C + 'protocol::MPCContext'

# public functions of the library used as they are specified elsewhere: name, result type, uses field elements
FNS = {
    C + 'circuit::Circuit::from_bristol_fashion': ('bristol', C + 'circuit::Circuit', False),
    C + 'circuit::Circuit::pack': ('pack', C + 'circuit::PackedCircuit', False),
    PS + 'default_pos': ('points', GFV, True),
    PS + 'new': ('scheme', C + 'sharing::PackedSharing<18>', True),
    C + 'math::binary_super_inv_matrix': ('binmatrix', nd(2), True),
    C + 'math::super_inv_matrix': ('matrix', nd(2), True),
    PP + 'PreProc::describe': ('describe', PP + 'PreProcDesc', False),
    PP + 'PreProc::dummy': ('dummy', PP + 'PreProc<18>', True),
    PP + 'RandContext::new': ('randctx', PP + 'RandContext<18>', True),
    PP + 'ZeroContext::new': ('zeroctx', PP + 'ZeroContext<18>', True),
    PP + 'RandBitContext::new': ('bitctx', PP + 'RandBitContext<18>', True),
    GP_ + 'GarbleContext::new': ('garblectx', GP_ + 'GarbleContext<18>', True),
}


def width(it, n):
    w = it.gargs(n['f'] if n.get('k') == 'Call' else n).get('W')
    return w if w is not None else I(18)


def contract(name, ty, gf):
    def f(it, args, n):
        xs = [it.val(a) for a in args]
        t = mk('c.' + name, *xs)
        TY[t] = ty
        it.event('use' if gf else 'make', n, S(name), width(it, n), *xs)
        return t
    return f


def opq(t, a, env, loc):
    return Opq((t.op,) + tuple(ev.canon(ev._ev(x, env, loc)) if isinstance(x, terms.T) else x for x in a), env)


for _n, _, _ in FNS.values():
    ev.OPS['c.' + _n] = opq
for _n in ('c.start', 'c.taken', 'jdump', 'jparse', 'sersize', 'clockat', 'clockof', 'duration'):
    ev.OPS[_n] = opq


def p_setup(it, args, n):
    it.event('setup', n, *[it.val(a) for a in args])
    return mk('afut', 'net', tup(atom('stats', NW + 'Stats'), netatom()))


def p_init(it, args, n):
    it.event('init', n, width(it, n))
    return res(atom('initok', 'bool'), UNIT, NOTHING)


def p_sync(it, args, n):
    it.event('sync', n, it.val(args[0]), it.val(args[2]))
    return mk('afut', 'sync', UNIT)


def p_now(it, args, n):
    t = mk('c.start', it.val(args[1]), it.pathkey(), *it.lvars())
    it.event('start', n, it.val(args[0]), it.val(args[1]), t)
    return mk('afut', 'now', t)


def p_elapsed(it, args, n):
    t = mk('c.taken', it.val(args[0]), it.pathkey(), *it.lvars())
    it.event('stop', n, it.val(args[0]), it.val(args[1]), t)
    return mk('afut', 'elapsed', t)


def p_run(it, args, n):
    it.event('run', n, width(it, n), *[it.val(a) for a in args])
    return mk('afut', 'run', UNIT)


RUN = {'garble': GP_ + 'garble', 'preproc': PP + 'preproc'}


def prims():
    p = {k: contract(*v) for k, v in FNS.items()}
    p.update(NETP)
    p.update({NW + 'setup_tcp_network': p_setup, C + 'math::galois::GF::init': p_init, NW + 'sync': p_sync,
              C + 'Stats::now': p_now, C + 'Stats::elapsed': p_elapsed})
    p.update({k: p_run for k in RUN.values()})
    return p


class Bin:
    def __init__(self, c, name):
        self.c, self.name = c, name
        self.it = c.interp(prims())
        self.main = name + '::main'
        c.call(self.main, [], it=self.it)
        self.w = c.where(self.main)
        self.events = self.it.events
        self.opts = None
        for e in self.events:
            for a in e.args:
                if isinstance(a, terms.T):
                    for y in subterms(a):
                        if y.op == 'param' and y.a[0] == 'opts':
                            self.opts = y
        if self.opts is None:
            raise Unknown('options of ' + name)
        o = self.opt
        self.addrs = A(length(mk('filelines', o('net'))), lambda i: mk('line', at(mk('filelines', o('net')), i)))
        self.n = o('num_parties') if name == 'preproc_size' else length(mk('filelines', o('net')))

    def opt(self, k):
        return field(self.opts, k)

    def kind(self, *ks):
        return [e for e in self.events if e.kind in ks]

    def lines(self, e):
        return '%s %s' % (e.loc, e.fn)

    # ---- specification
    def pts(self):
        return mk('c.points', self.n, self.opt('packing_param'))

    def ctx(self):
        o, n = self.opt, self.n
        d = {'id': I(0) if self.name == 'preproc_size' else o('id'), 'n': n, 't': o('threshold'), 'l': o('packing_param'),
             'lpn_tau': o('lpn_error_bias'), 'lpn_key_len': o('lpn_key_len'), 'lpn_mssg_len': o('lpn_mssg_len'),
             'pss': mk('c.scheme', sub(add(o('threshold'), o('packing_param')), I(1)), n, self.pts()),
             'pss_n': mk('c.scheme', sub(n, I(1)), n, self.pts())}
        b = self.c.p.adts[CTX]
        fs = [f['n'] for f in b['variants'][0]['fields']] if 'variants' in b else list(d)
        return mk('struct', CTX, tuple((k, d[k]) for k in fs if k in d))

    def circ(self):
        return mk('c.pack', mk('c.bristol', self.opt('circ')), self.opt('packing_param'))

    def desc(self):
        return mk('c.describe', self.circ(), self.ctx())

    # ---- valuations
    def env(self, r, k, n=None, **kw):
        n = n or r.randrange(3, 40)
        ls = ['10.0.0.%d:%d' % (i, 5000 + i) for i in range(n)]
        ints = distinct(r, 7, 2, 500)
        o = {'id': r.randrange(n), 'net': 'net.txt', 'circ': 'circ.txt', 'threshold': ints[0], 'packing_param': ints[1],
             'binsup_mat': 'mat.txt', 'lpn_error_bias': ints[2], 'lpn_key_len': ints[3], 'lpn_mssg_len': ints[4],
             'reps': r.choice((0, 1, 2, 5)), 'save': ('some', 'out.json'), 'threads': ints[5], 'num_parties': n}
        o.update(kw)
        return Env({'opts': ('S', 'opts', tuple(o.items())), '@file': [[x] for x in ls], 'net': 'NET', 'stats': 'STATS',
                    'initok': True, 'poolok': True, '@opts': o}, k)


def bins(c, which):
    if not hasattr(c, 'bins'):
        c.bins = {}
    for name in which:
        if name not in c.bins:
            c.bins[name] = Bin(c, name)
    return [c.bins[k] for k in which]


def get(c, name):
    return bins(c, [name])[0]


# ------------------------------------------------------------------ C40
@prop('C40')
def c40(c):
    for name in BENCH:
        with c.part(name):
            configured(c, get(c, name))
    with c.part('preproc_size'):
        b = get(c, 'preproc_size')
        w = b.w
        n = 0
        for e in b.kind('make', 'use'):
            if e.args[0] is S('describe'):
                n += 1
                c.eq('preproc_size: circuit and context described', tup(*e.args[2:]), tup(b.circ(), b.ctx()), b.env, b.lines(e),
                     'the size report describes other material than its options ask for', alts=anyid(b, e))
            if e.args[0] is S('dummy'):
                n += 1
                c.eq('preproc_size: material generated', tup(*e.args[3:]), tup(b.desc(), b.ctx()), b.env, b.lines(e),
                     'the size report generates other material than its options ask for', alts=anyid(b, e, True))
        if n < 2:
            raise Unknown('descriptions in preproc_size')


def anyid(b, e, dummy=False):
    """The size does not depend on the number of the party: accept any."""
    for a in e.args[2:]:
        if isinstance(a, terms.T) and a.op == 'struct' and a.a[0] == CTX:
            i = field(a, 'id')
            s = tup(b.desc(), b.ctx()) if dummy else tup(b.circ(), b.ctx())
            old = b.ctx()
            new = setfield(old, 'id', i)
            return [replace(s, {old: new})]
    return []


def configured(c, b):
    name = b.name
    st = b.kind('setup')
    if len(st) != 1:
        raise Unknown('%d connections' % len(st))
    c.eq(name + ': connects', tup(st[0].args[0], st[0].args[1]), tup(b.opt('id'), b.addrs), b.env, b.lines(st[0]),
         'the program does not connect as the given party to the listed addresses')
    pl = b.kind('pool')
    if pl:
        for e in pl:
            c.eq(name + ': worker threads', ite(e.pc, e.args[0], NONE), some(b.opt('threads')), b.env, b.lines(e),
                 'the number of worker threads is not the one asked for')
    else:
        used = any(b.opt('threads') in subterms(x) for e in b.events for x in e.args if isinstance(x, terms.T) and e.kind not in ('filewrite', 'send', 'print'))
        if used or b.it.unknown and any('rayon' in str(u) for u in b.it.unknown):
            c.undecided(name + ': worker threads', 'thread pool not understood')
        else:
            c.lacks(b.it, name + ': worker threads', 'the number of worker threads asked for is not used', b.w)
    runs = b.kind('run')
    if not runs:
        c.lacks(b.it, name + ': runs the protocol', 'the program never runs the protocol', b.w)
        return
    for e in runs:
        a = e.args
        if name == 'garble':
            pid, mat, gc, net = a[1:5]
            c.eq('garble: circuit and context', gc, mk('c.garblectx', b.circ(), b.ctx()), b.env, b.lines(e),
                 'the circuit or the parameters garbled with are not those of the options')
            if mat.op != 'c.dummy':
                raise Unknown('preprocessing material')
            c.eq('garble: material', tup(mat.a[1], mat.a[2]), tup(b.desc(), b.ctx()), b.env, b.lines(e),
                 'the preprocessing material is not the one described for the circuit')
            seed = mat.a[0]
            bad = [y for y in subterms(seed) if y.op == 'rand' or y is b.opt('id')]

            def trial(r, k):
                env = b.env(r, k, n=4)
                m = {v: I(r.randrange(3)) for v, _ in e.loops}
                vals = set()
                for me in range(4):
                    o = dict(env.params['@opts'], id=me)
                    vals.add(ev._int(replace(seed, m), Env({**env.params, 'opts': ('S', 'opts', tuple(o.items()))}, env.seed), {}))
                if len(vals) > 1:
                    return 'parties generate their material from different seeds', {}
            c.hunt('garble: same seed at all parties', [seed], trial, b.lines(e), None,
                   None if bad else 'the seed does not depend on the party')
        else:
            pid, desc, ctx, rc, zc, bc, net = a[1:8]
            mat = mk('c.matrix', b.n, sub(b.n, b.opt('threshold')))
            c.eq('preproc: material described', desc, b.desc(), b.env, b.lines(e),
                 'the material generated is not the one described for the circuit')
            c.eq('preproc: context', ctx, b.ctx(), b.env, b.lines(e), 'the parameters are not those of the options')
            c.eq('preproc: randomness extraction', tup(rc, zc), tup(mk('c.randctx', mat, b.ctx()), mk('c.zeroctx', mat, b.ctx())),
                 b.env, b.lines(e), 'random sharings are not extracted with a matrix of one column per party and parties - threshold rows')
            c.eq('preproc: bit extraction', bc, mk('c.bitctx', mk('c.binmatrix', b.opt('binsup_mat')), b.ctx()), b.env, b.lines(e),
                 'random bits are not extracted with the matrix of the given file')


# ------------------------------------------------------------------ C04, second half
def initialises(c):
    for name in BINS:
        with c.part(name + ': initialises'):
            b = get(c, name)
            uses = [e for e in b.events if e.kind in ('use', 'run')]
            if not uses:
                raise Unknown('no computation with field elements')
            w = b.lines(uses[0])
            stops = ('unwrap', 'panic', 'exit')
            ok_ = atom('initok', 'bool')
            first = b.events.index(uses[0])
            want = uses[0].args[1] if uses[0].kind == 'use' else uses[0].args[0]
            ok = False
            for i, e in enumerate(b.events[:first]):
                if e.kind == 'init' and e.pc is TRUE and not e.loops and e.args[0] is want:
                    ok = any(f.kind == 'unwrap' and f.pc is TRUE and f.args[0] is atom('initok', 'bool') for f in b.events[i:first])

            def trial(r, k):
                good = k % 2 == 0
                env = b.env(r, k, reps=2)
                env.params['initok'] = good
                done = set()
                for e in b.events:
                    if e.loops and not all(ev._int(bb, env, {}) > 0 for _, bb in e.loops):
                        continue
                    m = {v: I(0) for v, _ in e.loops}
                    if e.kind in stops + ('init', 'use', 'run'):
                        if not ev._bool(replace(e.pc, m), env, {}):
                            continue
                    if e.kind == 'unwrap':
                        if ok_ in subterms(e.args[0]) and not ev._bool(replace(e.args[0], m), env, {}):
                            return None
                        continue
                    if e.kind in ('panic', 'exit'):
                        if e.kind == 'panic' and e.args and not ev._bool(replace(e.args[0], m), env, {}):
                            continue
                        return None
                    if e.kind == 'init':
                        done.add(ev._int(e.args[0], env, {}))
                        ran = True
                    if e.kind in ('use', 'run'):
                        wd = ev._int(e.args[1] if e.kind == 'use' else e.args[0], env, {})
                        if wd not in done:
                            return '%s computes with elements of the field of width %d before that field is initialised (%s)' % (name, wd, e.loc), {}
                        if not good:
                            return '%s goes on after the field could not be initialised (%s)' % (name, e.loc), {}
            c.hunt(name + ': initialises the field first', [e.pc for e in uses], trial, w, None,
                   'initialised and checked before the first of %d uses' % len(uses) if ok else None, n=4)


# ------------------------------------------------------------------ C41
def script(b, n, me, reps, save):
    """What a party does, in order: (operation, arguments, event)."""
    env = b.env(random.Random(1), 1, n=n, id=me, reps=reps, save=('some', 'out.json') if save else ('none',))
    evs = [e for e in b.events if e.kind in ('sync', 'send', 'recv', 'recveach', 'run', 'start', 'stop', 'filewrite', 'panic', 'exit')]
    out = []

    def ids(t):
        return bytes(ev._seq(t, env, {}))

    def go(es, m, depth):
        i = 0
        while i < len(es):
            e = es[i]
            if len(e.loops) > depth:
                v, bnd = e.loops[depth]
                j = i
                while j < len(es) and len(es[j].loops) > depth and es[j].loops[depth][0] is v:
                    j += 1
                for q in range(ev._int(replace(bnd, m), env, {})):
                    go(es[i:j], {**m, v: I(q)}, depth + 1)
                i = j
                continue
            i += 1
            if not ev._bool(replace(e.pc, m), env, {}):
                continue
            a = [replace(x, m) if isinstance(x, terms.T) else x for x in e.args]
            if e.kind == 'sync':
                out.append(('sync', ids(a[0]), ev._int(a[1], env, {}), e))
            elif e.kind == 'send':
                to, pid, _ = parts(a[1])
                tv = ev._ev(to, env, {})
                if tv[1] == ALL:
                    dst = None
                elif tv[1] == ONE:
                    dst = ev.as_int(tv[2], env)
                else:
                    raise Unknown('recipient')
                out.append(('send', ids(pid), dst, e))
            elif e.kind == 'recv':
                out.append(('recv', ids(a[0]), 1, e))
            elif e.kind == 'recveach':
                out.append(('each', ids(a[0]), ev._int(a[1], env, {}), e))
            elif e.kind == 'run':
                out.append(('run', ids(a[1]), 0, e))
            elif e.kind in ('start', 'stop', 'filewrite'):
                out.append((e.kind, b'', 0, e))
            elif e.kind == 'exit' or not e.args or ev._bool(a[0], env, {}):
                raise Unknown('the program stops at ' + e.loc)
    go(evs, {}, 0)
    return out


def explore(scripts, limit=400000):
    """All orders in which parties can proceed and messages can be taken; what can go wrong in one of them."""
    n = len(scripts)
    taken = {}
    # barrier that belongs to each measured interval
    gate = []
    for s in scripts:
        g, last, i0 = [], None, 0
        for i, op in enumerate(s):
            if op[0] == 'sync':
                last = i
            elif op[0] == 'stop':
                last = None
            elif op[0] == 'start':
                g.append(last)
        gate.append(g)
    for p, s in enumerate(scripts):
        if None in gate[p]:
            k = gate[p].index(None)
            e = [op for op in s if op[0] == 'start'][k][3]
            return 'repetition %d is measured without a barrier before it' % k, e
    nth = []
    for s in scripts:
        c = {}
        x = []
        for op in s:
            x.append(c.get(op[0], 0))
            c[op[0]] = c.get(op[0], 0) + 1
        nth.append(x)
    wr = [i for i, op in enumerate(scripts[0]) if op[0] == 'filewrite']
    init = (tuple([0] * n), tuple([None] * n), ())
    seen = {init}
    todo = [init]
    while todo:
        pcs, prog, q = todo.pop()
        qs = dict(q)
        moved = False
        for p in range(n):
            s = scripts[p]
            i = pcs[p]
            if i >= len(s):
                continue
            op, pid, arg, e = s[i]
            nxt = []

            def put(d, frm, to, tag):
                d[(to, pid, frm)] = d.get((to, pid, frm), ()) + (tag,)
            if op in ('start', 'stop', 'filewrite'):
                if op == 'start':
                    k = nth[p][i]
                    for o in range(n):
                        if k >= len(gate[o]) or pcs[o] < gate[o][k] or (pcs[o] == gate[o][k] and prog[o] is None):
                            return 'party %d starts to measure repetition %d before party %d reached its barrier' % (p, k, o), e
                nxt.append((i + 1, None, qs))
            elif op == 'send':
                d = dict(qs)
                for o in (range(n) if arg is None else [arg]):
                    put(d, p, o, (e.loc, nth[p][i]))
                nxt.append((i + 1, None, d))
            elif op == 'run':
                if prog[p] is None:
                    nxt.append((i, 'in', qs))
                else:
                    k = nth[p][i]
                    if all(reached(scripts[o], nth[o], pcs[o], prog[o], 'run', k) for o in range(n)):
                        nxt.append((i + 1, None, qs))
            elif op == 'sync' and prog[p] is None:
                d = dict(qs)
                for o in range(n):
                    put(d, p, o, ('barrier', nth[p][i]))
                nxt.append((i, frozenset(), d))
            elif op in ('sync', 'each'):
                got = prog[p] or frozenset()
                if len(got) >= arg:
                    nxt.append((i + 1, None, qs))
                else:
                    for f in range(n):
                        m = qs.get((p, pid, f), ())
                        if m:
                            d = dict(qs)
                            d[(p, pid, f)] = m[1:]
                            if f not in got:
                                t = taken.setdefault((p, i, f), m[0])
                                if t != m[0] or (op == 'sync' and m[0] != ('barrier', nth[p][i])):
                                    return 'party %d can take the message %s of party %d for that of another phase' % (p, m[0], f), e
                            nxt.append((i, got | {f}, d))
            elif op == 'recv':
                for f in range(n):
                    m = qs.get((p, pid, f), ())
                    if m:
                        t = taken.setdefault((p, i), m[0])
                        if t != m[0]:
                            return 'party %d can receive either %s or %s' % (p, t, m[0]), e
                        d = dict(qs)
                        d[(p, pid, f)] = m[1:]
                        nxt.append((i + 1, None, d))
            for i2, g2, d in nxt:
                moved = True
                np_ = pcs[:p] + (i2,) + pcs[p + 1:]
                if i2 >= len(s) and p and wr and np_[0] <= wr[-1]:
                    return 'party %d can end before the report is written' % p, e
                st = (np_, prog[:p] + (g2,) + prog[p + 1:],
                      tuple(sorted((k, v) for k, v in d.items() if v)))
                if st not in seen:
                    seen.add(st)
                    todo.append(st)
                    if len(seen) > limit:
                        raise Unknown('too many interleavings')
        if not moved and any(pcs[p] < len(scripts[p]) for p in range(n)):
            p = min(p for p in range(n) if pcs[p] < len(scripts[p]))
            return 'party %d can wait for ever' % p, scripts[p][pcs[p]][3]
    return len(seen)


def reached(s, nth, pc, prog, kind, k):
    for i, op in enumerate(s):
        if op[0] == kind and nth[i] == k:
            return pc > i or (pc == i and prog is not None)
    return False


@prop('C41')
def c41(c):
    for name in BENCH:
        with c.part(name):
            b = get(c, name)
            phases(c, b)
            apart(c, b)


def phases(c, b):
    name = b.name
    cases = [(n, r, s) for n in (2, 3) for r in (0, 1, 2) for s in (False, True)]
    if c.tier == 'thorough':
        cases += [(2, 3, True), (4, 1, True)]

    def trial(r, k):
        n, reps, save = cases[k]
        scripts = [script(b, n, me, reps, save) for me in range(n)]
        for me, s in enumerate(scripts):
            inside = False
            for op in s:
                if op[0] == 'start':
                    inside = True
                elif op[0] == 'stop':
                    inside = False
                elif op[0] == 'sync' and inside:
                    return 'the barrier of a repetition is part of the measured interval (%s)' % op[3].loc, {}
            snd = [i for i, op in enumerate(s) if op[0] == 'send']
            if snd and not any(op[0] in ('recv', 'each', 'sync') for op in s[snd[-1] + 1:]):
                return 'party %d ends right after handing over a message (%s), which may not be delivered' % (me, s[snd[-1]][3].loc), {}
        x = explore(scripts)
        if isinstance(x, tuple):
            return '%s: %s (%s) with %d parties, %d repetitions' % (name, x[0], x[1].loc, n, reps), {}
    c.hunt(name + ': phases', [], trial, b.w, None, n=len(cases),
           bounded='all orders of steps and deliveries for up to %d parties and %d repetitions' % (max(x[0] for x in cases), max(x[1] for x in cases)))


def lits(t, env):
    return bytes(ev._seq(t, env, {}))


def apart(c, b):
    """Messages of the benchmark and of the protocol it runs go under different identifiers."""
    own = []
    for e in b.events:
        if e.kind in ('sync', 'recv', 'recveach'):
            own.append((e.args[0], e))
        elif e.kind == 'send':
            own.append((parts(e.args[1])[1], e))
    runs = b.kind('run')
    if not own or not runs:
        raise Unknown('identifiers')
    if b.name == 'garble':
        g = gar(c)
        it, dom = g.it, lambda r, k: g.inst(r, k).env()
    else:
        x, it, m, dom, ks, pid = preproc_all(c)
    forms = idsp.ids_of(it)
    deep = max(len(idsp.chain(t)[1]) for t, _ in forms) + 1
    env = b.env(random.Random(3), 3)
    fixed = not any(v in t.fv for t, e in own for v, _ in e.loops) and not any(v in e.args[1].fv for e in runs for v, _ in e.loops)
    ok = fixed
    if fixed:
        for t, e in own:
            B = lits(t, env)
            for r in runs:
                P = lits(r.args[1], env)
                if B.startswith(P) and B != P and len(B) - len(P) <= 4 * deep:
                    ok = False
    sizes = {}
    for e in it.events:
        if e.kind == 'child':
            sizes[mk('child', e.args[0], e.args[1])] = e.args[2]

    def enc(t, env2, m, P):
        if t.op != 'child':
            return P
        up = enc(t.a[0], env2, m, P)
        k = ev._int(replace(t.a[1], m), env2, {})
        mx = sizes.get(t)
        if mx is None:
            raise Unknown('builder')
        mx = ev._int(replace(mx, m), env2, {})
        nb = max(1, (max(0, (mx - 1).bit_length()) + 7) // 8)
        return up + k.to_bytes(nb, 'little')

    def trial(r, k):
        e1 = b.env(r, k)
        for q in range(2):
            Bs = {lits(replace(t, {v: I(q) for v, _ in e.loops}), e1): e for t, e in own}
            Ps = {lits(replace(e.args[1], {v: I(q) for v, _ in e.loops}), e1) for e in runs}
            e2 = dom(r, k)
            for P in Ps:
                for t, e in forms:
                    if len(e.loops) > 1:
                        raise Unknown('identifiers in nested loops')
                    lim = [{}] if not e.loops else [{e.loops[0][0]: I(j)} for j in range(min(300, ev._int(e.loops[0][1], e2, {})))]
                    for m in lim:
                        if not ev._bool(replace(e.pc, m), e2, {}):
                            continue
                        i = enc(t, e2, m, P)
                        if i in Bs:
                            return 'messages of the benchmark share the identifier %r with the protocol (%s)' % (i, Bs[i].loc), {}
    c.hunt(b.name + ': identifiers apart from the protocol', [], trial, b.w, None,
           'no identifier of the benchmark extends that of the protocol by at most %d bytes' % (4 * deep) if ok else None, n=20)


# ------------------------------------------------------------------ C42
DETAILS = {'n': None, 't': 'threshold', 'l': 'packing_param', 'circ': 'circ', 'lpn_tau': 'lpn_error_bias',
           'lpn_key_len': 'lpn_key_len', 'lpn_mssg_len': 'lpn_mssg_len', 'reps': 'reps', 'threads': 'threads'}


@prop('C42')
def c42(c):
    for name in BENCH:
        with c.part(name):
            report(c, get(c, name))
    with c.part('preproc_size'):
        sizes(c, get(c, 'preproc_size'))


def jfield(j, k):
    if j.op == 'struct':
        for a, v in j.a[1]:
            if a == k:
                return v
        return None
    raise Unknown('report')


def report(c, b):
    name = b.name
    fw = b.kind('filewrite')
    if len(fw) != 1 or fw[0].loops:
        raise Unknown('%d reports written' % len(fw))
    e = fw[0]
    w = b.lines(e)
    o = b.opt
    c.eq(name + ': file', e.args[0], opt_val(o('save')), b.env, w, 'the report is not written to the given file')

    c.eq(name + ': written', e.pc, band(is_some(o('save')), eq0(o('id'))), lambda r, k: b.env(
        r, k, save=r.choice((('none',), ('some', 'out.json')))), w, 'the report is not written exactly by party 0 when asked for')
    j = e.args[1]
    if j.op != 'jdump':
        raise Unknown('text of the report')
    j = j.a[0]
    det = jfield(j, 'details')
    if det is None:
        c.bad(name + ': parameters', 'the report lacks the parameters of the run', w)
    else:
        for k, v in DETAILS.items():
            x = jfield(det, k)
            if x is None:
                c.bad('%s: parameter %s' % (name, k), 'the report does not record %s' % k, w)
                continue
            c.eq('%s: parameter %s' % (name, k), x, b.n if v is None else o(v), b.env, w,
                 'the report does not record under %s the value the program ran with' % k)
    bm = jfield(j, 'benchmarks')
    each = b.kind('recveach')
    if bm is None:
        c.bad(name + ': data of the parties', 'the report lacks the data of the parties', w)
    else:
        if len(each) != 1:
            raise Unknown('collection of results')
        i = each[0].args[0]
        c.eq(name + ': data of the parties', bm, A(b.n, lambda p: mk('jparse', mk('msgp', i, p))), lambda r, k: b.env(r, k), w,
             'the report does not hold the data of every party in party order')
    # what every party contributes
    sn = [s for s in b.kind('send') if parts(s.args[1])[0] is mk('ctor', ONE, I(0))]
    if len(sn) != 1 or sn[0].loops:
        raise Unknown('results sent')
    s = sn[0]
    ws = b.lines(s)
    d = parts(s.args[1])[2]
    c.eq(name + ': results handed in', s.pc, is_some(o('save')), lambda r, k: b.env(
        r, k, save=r.choice((('none',), ('some', 'out.json')))), ws, 'not every party hands in its results')
    if d.op != 'jdump':
        raise Unknown('text of the results')
    x = d.a[0]
    if name == 'garble':
        x = jfield(x, 'garbling')
        if x is None:
            c.bad(name + ': repetitions', 'the results lack the repetitions', ws)
            return
    st, sp, run = b.kind('start'), b.kind('stop'), b.kind('run')
    if len(st) == len(sp) == 1 and len(sp[0].loops) == 1 and not st[0].loops:
        c.bad(name + ': interval measured', 'all repetitions are measured from the same start', b.lines(st[0]))
        return
    if len(st) != 1 or len(sp) != 1 or len(run) != 1 or len(sp[0].loops) != 1 or st[0].loops != sp[0].loops or run[0].loops != sp[0].loops:
        raise Unknown('measurements')
    if sp[0].pc is not TRUE or st[0].pc is not TRUE:
        raise Unknown('conditional measurement')
    v, bnd = sp[0].loops[0]
    t = sp[0].args[2]
    c.eq(name + ': number of repetitions', bnd, o('reps'), b.env, b.lines(sp[0]), 'the program does not run the given number of repetitions')
    order = [b.events.index(y) for y in (st[0], run[0], sp[0])]
    c.require(name + ': measured interval', order == sorted(order), 'the measured interval does not enclose the run of the protocol', b.lines(sp[0]))
    c.eq(name + ': interval measured', tup(sp[0].args[0], sp[0].args[1], st[0].args[0], st[0].args[1]),
         tup(st[0].args[2], atom('stats', NW + 'Stats'), atom('stats', NW + 'Stats'), b.n), lambda r, k: bind(b.env(r, k), v), b.lines(sp[0]),
         'time and communication are not measured from the start of the repetition')
    f0, f1 = field(t, '0'), field(t, '1')
    spec = arr(bnd, v, mk('struct', 'json', (('comm', A(length(f1), lambda q: lst(field(at(f1, q), '0'), field(at(f1, q), '1')))), ('time', f0))))

    def dom(r, k):
        env = b.env(r, k)
        env.lens = lambda key: 3
        return env
    c.eq(name + ': repetitions', x, spec, dom, ws, 'the results do not hold the time and communication of each repetition')


def bind(env, v):
    env.params['@v'] = 0
    return env


def sizes(c, b):
    o = b.opt
    d = None
    for e in b.events:
        if e.kind in ('make', 'use') and e.args[0] is S('describe'):
            d = mk('c.describe', *e.args[2:])
        if e.kind == 'use' and e.args[0] is S('dummy'):
            m = mk('c.dummy', *e.args[2:])
    if d is None:
        raise Unknown('description')
    f = lambda k: field(d, k)
    ks = f('keys')
    key = muln(*[field(ks, str(i)) for i in range(3)])
    er = f('errors')
    want = {'mask shares': [f('masks')], 'key shares': [key],
            'random shares': [f('randoms'), addn(key, f('randoms'), mul(I(3), er))],
            'random zeros': [f('zeros')], 'random errors': [er],
            'zero shares': [add(f('zeros'), mul(I(2), er))], 'bit shares': [add(f('masks'), mul(I(2), er))],
            'total preproc size': [mk('sersize', m)]}
    got = {}
    text = EMPTY
    pend = []
    for e in b.kind('print'):
        if e.loops or e.pc is not TRUE:
            raise Unknown('conditional output')
        x = e.args[0]
        for y in (x.a if x.op == 'strcat' else (x,)):
            if y.op == 'str':
                pend.append(y.a[0])
            else:
                lab = ''.join(pend).rstrip().split('\n')[-1]
                pend = []
                k = ' '.join(_re.findall(r'[a-z]+', lab.lower()))
                k = ' '.join(z for z in k.split() if z != 'bytes')
                got.setdefault(k, []).append((y.a[0] if y.op == 'show' else y, e))

    def dom(r, k):
        env = b.env(r, k)
        return env
    for k, vs in want.items():
        g = got.get(k, [])
        if len(g) != len(vs):
            if g:
                c.undecided('preproc_size: ' + k, '%d lines' % len(g))
            else:
                c.undecided('preproc_size: ' + k, 'no such line in the output')
            continue
        for i, ((x, e), v) in enumerate(zip(g, vs)):
            c.eq('preproc_size: %s%s' % (k, ', to generate' if i else ''), x, v, dom, b.lines(e),
                 'the size report prints another value as %s' % k)
