from base import *
import terms
from interp import updat
from matp import aborts

CI = C + 'circuit::Circuit::'
PCI = C + 'circuit::PackedCircuit::'
G = C + 'circuit::Gate::'
PG = C + 'circuit::PackedGate::'


def acc(c, path, x):
    return c.call(path, [x])[0]


def ginfo(inp, out):
    return mk('struct', C + 'circuit::GateInfo', (('inp', inp), ('out', out)))


LONG, SPARSE = 5, range(6, 12)     # trials with many gates and wires, and with large wire numbers


def bristol(r, k=-1):
    """A well-formed circuit file as lines of tokens."""
    ni, no = r.randrange(1, 4), r.randrange(1, 4)
    il = [r.randrange(1, 4) * (40 if k == LONG else 1) for _ in range(ni)]
    ol = [r.randrange(1, 4) * (40 if k == LONG else 1) for _ in range(no)]
    for q in (il, ol):
        if r.randrange(6) == 0:
            q.insert(r.randrange(len(q) + 1), 0)
    ni, no = len(il), len(ol)
    nw = sum(il)
    gates = []
    wires = list(range(nw))
    if k in SPARSE:
        nw += 70000
    for _ in range(sum(ol) + r.randrange(4) + (1000 if k == LONG else 0)):
        g = r.choice(('AND', 'XOR', 'INV'))
        f = 1 if g == 'INV' else 2
        same = [x[2:-2] for x in gates if x[-1] == g] if r.randrange(4) == 0 else ()
        ins = r.choice(same) if same else [str(r.choice(wires)) for _ in range(f)]
        gates.append([str(f), '1'] + ins + [str(nw), g])
        wires.append(nw)
        nw += 1
    return [[str(len(gates)), str(nw)], [str(ni)] + [str(x) for x in il], [str(no)] + [str(x) for x in ol], []] + gates


@prop('C37')
def c37(c):
    p = atom('path', 'std::path::Path')
    F = mk('filelines', p)
    M = cat(*[at(F, I(k)) for k in range(4)])

    def num(t):
        return mk('numval', t)

    def meta(k):
        return num(at(M, k))
    ng, nw, ni = meta(I(0)), meta(I(1)), meta(I(2))
    no = meta(add(I(3), ni))

    def ol(k):
        return meta(add(add(I(4), ni), k))

    def line(i):
        return at(F, add(I(4), i))

    def kind(i):
        return at(line(i), sub(length(line(i)), I(1)))

    def gate(i):
        w = [num(at(line(i), I(k))) for k in (2, 3)]
        o = num(at(line(i), add(I(2), num(at(line(i), I(0))))))
        two = cat(one(w[0]), one(w[1]))

        def g(k, inp):
            return one(mk('ctor', G + k, ginfo(inp, o)))
        return ite(eqt(kind(i), S('AND')), g('And', two), ite(eqt(kind(i), S('XOR')), g('Xor', two), g('Inv', one(w[0]))))

    def dom(r, k):
        return Env({'@file': bristol(r, k)})
    W = c.where(CI + 'from_bristol_fashion')
    with c.part('parse'):
        m, it = c.call(CI + 'from_bristol_fashion', [p])
        c.eq('gates', acc(c, CI + 'gates', m), flat(A(ng, gate)), dom, W, 'the gates differ from those in the file')
        c.eq('wires', acc(c, CI + 'num_wires', m), nw, dom, W, 'the number of wires is not the declared one')

        def inp(i):
            v = fresh(i)
            s = isum(i, v, meta(add(I(3), v)))
            return A(meta(add(I(3), i)), lambda j: add(s, j))
        c.eq('inputs', acc(c, CI + 'inputs', m), A(ni, inp), dom, W, 'the input groups are not consecutive wires from the first')

        def outp(i):
            q = sub(sub(no, I(1)), i)
            v = fresh(q)
            s = sub(sub(nw, isum(q, v, ol(sub(sub(no, I(1)), v)))), ol(i))
            return A(ol(i), lambda j: add(s, j))
        c.eq('outputs', acc(c, CI + 'outputs', m), A(no, outp), dom, W,
             'the output groups are not consecutive wires up to the last in file order')
        # refusal
        ab = replace(aborts(it), {mk('fileok', p): TRUE})

        def isn(t):
            return bnot(mk('isnum', t, S('u32')))
        i = fresh(ng)
        n1 = sub(length(line(i)), I(1))
        j = fresh(n1)
        x = fresh(ni)
        y = fresh(no)
        bads = {
            'unknown gate': binder('exists', ng, i, band(*[bnot(eqt(kind(i), S(k))) for k in ('AND', 'XOR', 'INV')])),
            'gate line': binder('exists', ng, i, binder('exists', n1, j, isn(at(line(i), j)))),
            'gate count': isn(at(M, I(0))), 'wire count': isn(at(M, I(1))), 'input count': isn(at(M, I(2))),
            'input length': binder('exists', ni, x, isn(at(M, add(I(3), x)))),
            'output count': isn(at(M, add(I(3), ni))),
            'output length': binder('exists', no, y, isn(at(M, add(add(I(4), ni), y)))),
        }

        def dom2(key):
            def f(r, k):
                ls = bristol(r)
                nin, nout = int(ls[1][0]), int(ls[2][0])
                junk = r.choice(('x', '', '-1', '4294967296', '1.5', '0x1'))
                if key == 'unknown gate':
                    r.choice(ls[4:])[-1] = r.choice(('NAND', 'EQ', 'and', 'OR', 'NOT', 'MAND', 'EQW', '3'))
                elif key == 'gate line':
                    q = r.choice(ls[4:])
                    q[r.randrange(len(q) - 1)] = junk
                elif key == 'gate count':
                    ls[0][0] = junk
                elif key == 'wire count':
                    ls[0][1] = junk
                elif key == 'input count':
                    ls[1][0] = junk
                elif key == 'input length':
                    ls[1][1 + r.randrange(nin)] = junk
                elif key == 'output count':
                    ls[2][0] = junk
                elif key == 'output length':
                    ls[2][1 + r.randrange(nout)] = junk
                return Env({'@file': ls})
            return f
        parts = set(ab.a) if ab.op == 'or' else {ab}
        for key, b in bads.items():
            if b in parts:
                c.ok('refuses: ' + key, 'the condition is among those under which parsing stops')
            else:
                c.eq('refuses: ' + key, ab, TRUE, dom2(key), W, 'a file with a bad %s is accepted' % key)
        c.eq('accepts', ab, FALSE, dom, W, 'a well-formed file is refused')


def rcirc(c, r, names, k=-1):
    """A random circuit in topological order, as a value."""
    ls = bristol(r, k)
    nin = int(ls[1][0])
    il = [int(x) for x in ls[1][1:]]
    ol = [int(x) for x in ls[2][1:]]
    nw = int(ls[0][1])
    gates = []
    for l in ls[4:]:
        gates.append(('C', G + {'AND': 'And', 'XOR': 'Xor', 'INV': 'Inv'}[l[-1]],
                      ('S', 'GateInfo', (('inp', [int(x) for x in l[2:-2]]), ('out', int(l[-2]))))))
    ins, s = [], 0
    for x in il:
        ins.append(list(range(s, s + x)))
        s += x
    outs, s = [], nw - sum(ol)
    for x in ol:
        outs.append(list(range(s, s + x)))
        s += x
    vals = {'gates': gates, 'inputs': ins, 'outputs': outs, 'num_wires': nw}
    return ('S', 'Circuit', tuple((names[k], v) for k, v in vals.items())), vals


def fields(c, atom_, pre, want):
    """Accessor results on an arbitrary value, and the names of the fields they read."""
    t = {k: acc(c, pre + k, atom_) for k in want}
    return t, {k: (v.a[1] if v.op == 'field' and v.a[0] is atom_ else k) for k, v in t.items()}


@prop('C38')
def c38(c):
    ci = atom('circ', C + 'circuit::Circuit')
    inp = atom('inp', '&[std::vec::Vec<bool>]')
    W = c.where(CI + 'eval')
    with c.part('eval'):
        t, names = fields(c, ci, CI, ('gates', 'inputs', 'outputs', 'num_wires'))
        m, it = c.call(CI + 'eval', [ci, inp])

        def gin(g, k, j):
            return at(field(vfield(g, G + k, 0), 'inp'), I(j))

        def gout(g, k):
            return field(vfield(g, G + k, 0), 'out')

        def setin(i, w):
            v = fresh(length(at(inp, i)))
            return binder('scat', length(at(inp, i)), v, mk('tup', TRUE, at(at(t['inputs'], i), v), at(at(inp, i), v)), w)
        w0 = fold(length(inp), A(t['num_wires'], lambda i: FALSE), setin)

        def step(i, w):
            g = at(t['gates'], i)

            def val(k, f):
                return updat(w, gout(g, k), f(*[at(w, gin(g, k, j)) for j in range(1 if k == 'Inv' else 2)]))
            return case(g, {G + 'And': val('And', band), G + 'Inv': val('Inv', bnot),
                            G + 'Xor': val('Xor', lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b)))})
        ws = fold(length(t['gates']), w0, step)
        spec = A(length(t['outputs']), lambda i: A(length(at(t['outputs'], i)), lambda j: at(ws, at(at(t['outputs'], i), j))))

        def dom(r, k):
            v, d = rcirc(c, r, names, k)
            e = Env({'circ': v, 'inp': [[bool(r.randrange(2)) for _ in g] for g in d['inputs']]})
            e.maxlen = max(e.maxlen, d['num_wires'])
            return e
        c.eq('outputs', m, spec, dom, W, 'the outputs are not those of the circuit')


SORTS = ('sortby', 'sorted', 'maxof', 'minof', 'sum', 'len', 'cnt', 'map', 'mget')


def exposed(t, ops, stop):
    """Subterms with one of ops reached without passing through stop."""
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op in ops:
            out.append(x)
            continue
        if x.op in stop:
            continue
        for y in x.a:
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                todo += [z for q in y for z in (q if isinstance(q, tuple) else (q,)) if isinstance(z, T)]
    return out


@prop('C39')
def c39(c):
    ci = atom('circ', C + 'circuit::Circuit')
    B = atom('B', 'u32')
    W = c.where(CI + 'pack')
    KINDS = (('And', 2), ('Xor', 2), ('Inv', 1))
    with c.part('pack'):
        t, names = fields(c, ci, CI, ('gates', 'inputs', 'outputs', 'num_wires'))
        m, it = c.call(CI + 'pack', [ci, B])
        g = acc(c, PCI + 'gates', m)
        unsorted = transform(g, lambda x: x.a[0] if x.op in ('sortby', 'sorted') else None)

        def chunks(s, f):
            n = length(s)
            return A(add(I(1), fdiv(sub(n, I(1)), B)),
                     lambda i: f(s, i, imin(B, sub(n, mul(B, i)))))

        def sel(k):
            return flat(A(length(t['gates']), lambda i: case(at(t['gates'], i), {
                G + q: (one(vfield(at(t['gates'], i), G + q, 0)) if q == k else EMPTY) for q, _ in KINDS})))
        seg = {}
        for k, nin in KINDS:
            def blk(s, i, n, k=k, nin=nin):
                def ent(j):
                    return at(s, add(mul(B, i), j))
                inp = cat(*[one(A(n, lambda j: at(field(ent(j), 'inp'), I(q)))) for q in range(nin)])
                return mk('ctor', PG + k, mk('struct', C + 'circuit::PackedGateInfo', (('inp', inp), ('out', A(n, lambda j: field(ent(j), 'out'))))))
            seg[k] = chunks(sel(k), blk)
        perms = [cat(*[seg[k] for k in q]) for q in itertools.permutations([k for k, _ in KINDS])]

        def dom(r, k):
            v, d = rcirc(c, r, names, k)
            return Env({'circ': v, 'B': r.choice((65, 260)) if k == LONG else r.randrange(1, 6), '@d': d})

        def judge(v, env):
            want = {k: [] for k, _ in KINDS}
            for x in env.params['@d']['gates']:
                s = dict(x[2][2])
                want[x[1].split('::')[-1]].append((tuple(s['inp']), s['out']))
            for k, nin in KINDS:
                got, sizes = [], []
                for x in v:
                    if x[1].split('::')[-1] != k:
                        continue
                    s = dict(x[2][2])
                    ins = [list(ev.as_list(q, env)) for q in s['inp']]
                    if len(ins) != nin or any(len(q) != len(s['out']) for q in ins):
                        return 'a block of kind %s has uneven wire lists' % k
                    sizes.append(len(s['out']))
                    got += list(zip(zip(*ins), s['out']))
                if sizes and (any(q != env.params['B'] for q in sizes[:-1]) or not 0 < sizes[-1] <= env.params['B']):
                    return 'block sizes %s of kind %s with block size %d' % (sizes, k, env.params['B'])
                if sorted(got) != sorted(want[k]):
                    return 'gates of kind %s packed %s, circuit has %s' % (k, sorted(got), sorted(want[k]))
            return None
        c.judge('gates', unsorted, perms, dom, judge, W, 'blocks do not contain every gate exactly once')
        for k in ('inputs', 'outputs'):
            def cut(s, i, n):
                return A(n, lambda j: at(s, add(mul(B, i), j)))
            c.eq(k, acc(c, PCI + k, m), chunks(flat(t[k]), cut), dom, W, 'the %s are not cut into blocks in order' % k)
        c.eq('wires', acc(c, PCI + 'num_wires', m), t['num_wires'], dom, W)
        c.eq('block size', acc(c, PCI + 'gates_per_block', m), B, dom, W)
        # the same at every party
        bad = exposed(g, ('rand',), ()) or (exposed(g, ('mapentries',), SORTS) if any(e.kind == 'hashiter' for e in it.events) else ())
        c.require('same everywhere', not bad, 'the order of the packed gates depends on random state (%s), it differs between parties'
                  % ('; '.join(str(x)[:60] for x in bad)), W)
    with c.part('counts'):
        pc = atom('pc', C + 'circuit::PackedCircuit')
        pg = acc(c, PCI + 'gates', pc)
        nm = pg.a[1] if pg.op == 'field' else 'gates'
        m, it = c.call(PCI + 'get_gate_counts', [pc])
        v = fresh(length(pg))
        cn = {k: count(length(pg), v, isv(at(pg, v), PG + k)) for k in ('And', 'Xor', 'Inv')}

        def dom(r, k):
            return Env({'pc': ('S', 'PackedCircuit', ((nm, [('C', PG + r.choice(('And', 'Xor', 'Inv')), ('S', 'PackedGateInfo', ()))
                                                            for _ in range(r.randrange(9))]),))})
        c.eq('counts', m, tup(cn['And'], cn['Xor'], cn['Inv']), dom, c.where(PCI + 'get_gate_counts'),
             'the reported counts are not the numbers of blocks')

