from base import *
import interp as IN

G = C + 'math::galois::GF'
BND = C + 'math::galois::bindings::'
WIDTHS = range(1, 30)
PRIM = [0, 0x1, 0o7, 0o13, 0o23, 0o45, 0o103, 0o211, 0o435, 0o1021, 0o2011, 0o4005, 0o10123, 0o20033, 0o42103, 0o100003,
        0o210013, 0o400011, 0o1000201, 0o2000047, 0o4000011, 0o10000005, 0o20000003, 0o40000041, 0o100000207,
        0o200000011, 0o400000107, 0o1000000047, 0o2000000011, 0o4000000005, 0o10040000007]


def mulw(a, b, w):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> w & 1:
            a ^= PRIM[w] | 1 << w
    return r


def invw(a, w):
    r, e = 1, (1 << w) - 2
    while e:
        if e & 1:
            r = mulw(r, a, w)
        a = mulw(a, a, w)
        e >>= 1
    return r


def o_fmulw(t, a, env, loc):
    x, y, w = [ev._int(q, env, loc) for q in a]
    return mulw(x, y, w) if 1 <= w <= 30 else ev.as_int(ev.Opq(('fmulw', x, y, w), env), env)


def o_fdivw(t, a, env, loc):
    x, y, w = [ev._int(q, env, loc) for q in a]
    if y == 0:
        raise Undef('division by zero')
    return mulw(x, invw(y, w), w)


def o_created(t, a, env, loc):
    return 0 if (ev._int(a[0], env, loc) * 2654435761 + env.params['@seed']) >> 3 & 1 else -1


ev.OPS['fmulw'] = o_fmulw
ev.OPS['fdivw'] = o_fdivw
ev.OPS['created'] = o_created


def p_mul(it, args, n):
    a, b, w = [it.val(x) for x in args]
    return mk('fmulw', *sorted((a, b)), w)


def p_div(it, args, n):
    return mk('fdivw', *[it.val(x) for x in args])


def p_create(it, args, n):
    w = it.val(args[0])
    it.event('create', n, w)
    return mk('created', w)


FFI = {BND + 'galois_logtable_multiply': p_mul, BND + 'galois_logtable_divide': p_div, BND + 'galois_create_log_tables': p_create}


class raw:
    """The representation of field elements is examined."""
    def __enter__(self):
        IN.RAW[0] = True

    def __exit__(self, *a):
        IN.RAW[0] = False


def elem(x):
    return mk('struct', G, (('0', x),))


def rep(v):
    return field(v, '0')


def impls(c, op):
    """(body, self by reference, operand by reference) of the operator implementations of the field type."""
    for b in c.p.all:
        t = b.get('trait') or ''
        st = b['_tys'][b['self_ty']] if 'self_ty' in b else ''
        if t.split('<')[0] == 'std::ops::' + op and IN.base_ty(st).startswith(GFP) and len(b.get('ins', ())) == 2:
            yield b, st.startswith('&'), b['_tys'][b['ins'][1]].startswith('&')


def fdom(w):
    def f(r, k):
        m = 1 << w
        e = Env({'x': r.randrange(m), 'y': r.randrange(m) if k % 5 else r.choice((0, 1, m - 1))})
        q = e.params
        q['x'] = {3: 0, 5: q['y'], 6: 1 << r.randrange(w)}.get(k % 9, q['x'])
        return e
    return f


@prop('C01')
def c01(c):
    with raw():
        x, y = atom('x', 'u32'), atom('y', 'u32')
        forms = 0
        for op, f in (('Add', lambda a, b, w: mk('xor', *sorted((a, b)))), ('Sub', lambda a, b, w: mk('xor', *sorted((a, b)))),
                      ('Mul', lambda a, b, w: mk('fmulw', *sorted((a, b)), w)), ('Div', lambda a, b, w: mk('fdivw', a, b, w))):
            found = set()
            for asg in (False, True):
                for b, sr, rr in impls(c, op + ('Assign' if asg else '')):
                    kind = op + ('Assign' if asg else '') + (' &self' if sr else '') + (' &rhs' if rr else '')
                    found.add((asg, sr, rr))
                    forms += 1
                    with c.part(kind):
                        for w in (18, 1, 8, 16, 29, 12):
                            it = c.interp(FFI)
                            W = I(w)
                            c.analysed.add(b['path'])
                            if asg:
                                r = mk('ref', it.alloc(elem(x)), ())
                                it.call_body(b, [r, elem(y)], wconst(b, w), None)
                                v = it.val(r)
                            else:
                                v = it.val(it.call_body(b, [elem(x), elem(y)], wconst(b, w), None))
                            if not c.eq('%s, width %d' % (kind, w), rep(v), f(x, y, W), fdom(w), '%s:%s %s' % (b['file'], b['line'], b['path']),
                                        'this form of the operator gives another result'):
                                break
            need = {(False, s, r) for s in (0, 1) for r in (0, 1)} | {(True, False, False), (True, False, True)}
            if not need <= found:
                c.bad('forms of ' + op, 'an operator form of the field type is gone', 'src/math/galois/mod.rs')
        c.cov['operator_forms'] = forms
        for w in (18, 1, 29):
            for name, want in (('ZERO', 0), ('ONE', 1)):
                b = c.p.fn(G + '::' + name)
                if b is None:
                    c.bad('constant ' + name, 'the constant is gone', 'src/math/galois/mod.rs')
                    continue
                with c.part(name):
                    it = c.interp(FFI)
                    v = it.val(it.enter(b, [], wconst(b, w), None))
                    c.eq('constant %s, width %d' % (name, w), rep(v), I(want), fdom(w), G + '::' + name, 'the identity has another value')
            for tr, name, want in (('num_traits::Zero', 'zero', 0), ('num_traits::One', 'one', 1)):
                with c.part(name):
                    v, it = c.call(tfn(c, tr, G, name), [], it=wi(c, w))
                    c.eq('%s, width %d' % (name, w), rep(v), I(want), fdom(w), name, 'the identity has another value')
            with c.part('is_zero'):
                v, it = c.call(tfn(c, 'num_traits::Zero', G, 'is_zero'), [elem(x)], it=wi(c, w))
                c.eq('is_zero, width %d' % w, v, eq0(x), lambda r, k: Env({'x': r.choice((0, 0, 1, 2, 1 << r.randrange(w), r.randrange(1 << w))) % (1 << w)}), 'is_zero', 'zero test wrong')
            with c.part('into'):
                v, it = c.call(tfn(c, 'std::convert::From<%s<' % G, 'u32', 'from'), [elem(x)], it=wi(c, w))
                c.eq('conversion to an integer, width %d' % w, v, x, fdom(w), 'From<GF> for u32', 'conversion changes the value')
            with c.part('eq'):
                v, it = c.call(tfn(c, 'std::cmp::PartialEq', G, 'eq'), [elem(x), elem(y)], it=wi(c, w))
                c.eq('equality, width %d' % w, v, eqt(x, y, 'int'), lambda r, k: (lambda z: Env({'x': z, 'y': z ^ (k % 3) * r.randrange(2)}))(r.randrange(1 << w)),
                     'PartialEq for GF', 'equality differs from equality of the representatives')


def wi(c, w):
    """Interpreter for the instance of width w."""
    it = c.interp(FFI)
    it.call_fn = lambda path, args: at_width(it, path, args, w)
    return it


def at_width(it, path, args, w):
    b = it.p.fn(path)
    return it.force(it.call_body(b, args, wconst(b, w), None))


def wconst(b, w):
    return {g: I(w) for g in b.get('generics', ())[:1]}


def draws(t):
    return [x for x in subterms(t) if x.op == 'rand']


@prop('C03')
def c03(c):
    with raw():
        x = atom('x', 'u32')
        frm = tfn(c, 'std::convert::From<u32>', G, 'from')
        vs = tfn(c, 'serde::de::Visitor', None, 'visit_seq', 'math::galois')
        for w in WIDTHS:
            def dom(r, k):
                m = 1 << w
                return Env({'x': r.choice((r.randrange(m), m - 1, m, m + 1, r.randrange(1 << 32), (1 << 32) - 1))})
            with c.part('from integers'):
                v, it = c.call(frm, [x], it=wi(c, w))
                c.eq('integers, width %d' % w, rep(v), fmod(x, I(1 << w)), dom, c.where(frm), 'an element made from an integer is not canonical or changes a canonical one')
            with c.part('sampling'):
                for w0 in {1, 8, 18, 29, max(w - 1, 1), min(w + 1, 29)} - {w}:
                    sampling(c, w, w0)
            decode(c, w, vs, True)


def sampling(c, w, w0):
    """The sampler of width w in a process where width w0 was used before."""
    it = wi(c, w)
    rng = mk('ref', it.alloc(mk('rng', 'thread')), ())
    at_width(it, G + '::rand', [rng], w0) if it.p.fn(G + '::rand') else None
    v, _ = c.call(G + '::rand', [rng], it=it)
    v = rep(v)
    d = draws(v)
    name = 'sampling, width %d after %d' % (w, w0)
    if len(d) == 1 and d[0].a[0] == 'uniform':
        lo, hi = d[0].a[3], d[0].a[4]
        # what is done with the draw: nothing, or a reduction that keeps it uniform
        post = v is d[0] or (v.op == 'mod' and v.a[0] is d[0] and v.a[1] is I(1 << w))
        if post and v is not d[0] and hi.op == 'int' and hi.a[0] % (1 << w) == 0 and lo is I(0):
            return c.ok(name, 'uniform over a multiple of the order')
        if v is d[0]:
            return c.eq(name, tup(lo, hi), tup(I(0), I(1 << w)), lambda r, k: Env({}), c.where(G + '::rand'),
                        'elements are not sampled uniformly from the field of the requested width')
    c.undecided(name, v)


@prop('C04')
def c04(c):
    with raw():
        for w in WIDTHS:
            for w0 in {1, 8, 18, 29, max(w - 1, 1), min(w + 1, 29)} - {w}:
                name = 'width %d after width %d' % (w, w0)
                with c.part(name):
                    it = wi(c, w)
                    f = G + '::init'
                    if it.p.fn(f):
                        at_width(it, f, [], w0)
                    v, _ = c.call(f, [], it=it)
                    want = eq0(mk('created', I(w)))

                    def dom(r, k):
                        return Env({'@seed': r.randrange(1 << 32)})
                    c.eq(name, is_ok(v), want, dom, c.where(f), 'success is reported for a width whose tables may not exist')
                    v2, _ = c.call(f, [], it=it)
                    c.eq(name + ', asked again', is_ok(v2), want, dom, c.where(f), 'a later call does not report the outcome of the initialisation')
                    made = [e for e in it.events if e.kind == 'create' and e.args[0] is I(w)]
                    if made:
                        c.ok(name + ', creates tables')
                    else:
                        c.lacks(it, name + ', creates tables', 'initialising creates no tables of that width', c.where(f))
    import binp
    binp.initialises(c)
    import galoisp
    galoisp.reports(c)


def decode(c, w, vs, canon):
    nb = (w + 7) // 8
    for have in range(0, nb + 1):
        bs = [atom('b%d' % i, 'u8') for i in range(have)]
        it = wi(c, w)
        seq = mk('struct', 'seqaccess', (('rest', lst(*bs)),))
        name = 'decoding %d of %d bytes, width %d' % (have, nb, w)
        with c.part(name):
            vis = mk('ctor', 'visitor')
            v, _ = c.call(vs, [vis, mk('ref', it.alloc(seq), ())], it=it)
            val = I(0)
            for i, x in enumerate(bs):
                val = add(val, mul(I(1 << 8 * i), x))

            def dom(r, k):
                q = r.randrange(1 << w)
                e = {'b%d' % i: q >> 8 * i & 255 for i in range(have)}
                if k % 3 == 0 and have:
                    e['b%d' % (have - 1)] = r.randrange(256)
                return Env(e)
            ok = lt(val, I(1 << w)) if have == nb else FALSE
            if canon:
                if have == nb:
                    c.eq(name + ': only canonical', is_ok(v), ok, dom, c.where(vs), 'decoded bytes give an element outside the field')
            else:
                if have < nb:
                    c.eq(name + ': refused', is_ok(v), FALSE, dom, c.where(vs), 'too short an input is not refused')
                else:
                    c.eq(name + ': value', ite(ok, rep(ok_val(v)), I(0)), ite(ok, val, I(0)), dom, c.where(vs), 'decoding gives another element')
                    c.eq(name + ': accepted', ite(ok, is_ok(v), TRUE), TRUE, dom, c.where(vs), 'a valid encoding is refused')
                p = [e for e in it.events if e.kind in ('panic', 'unwrap')]
                bad = [e for e in p if not (e.kind == 'unwrap' and is_ok(e.args[0]) is TRUE)]
                if bad and have < nb:
                    for e in bad:
                        if e.kind == 'unwrap' and e.pc is TRUE and (is_some(e.args[0]) is FALSE):
                            c.bad(name + ': no crash', 'decoding crashes on short input', e.loc)

@prop('C05')
def c05(c):
    with raw():
        x = atom('x', 'u32')
        ser = tfn(c, 'serde::Serialize', G, 'serialize')
        de = tfn(c, 'serde::Deserialize', G, 'deserialize')
        vs = tfn(c, 'serde::de::Visitor', None, 'visit_seq', 'math::galois')
        for w in WIDTHS:
            nb = (w + 7) // 8
            with c.part('encoding, width %d' % w):
                it = wi(c, w)
                v, _ = c.call(ser, [elem(x), mk('struct', 'serializer', ())], it=it)
                v = ok_val(v)
                want = mk('struct', 'sertup', (('n', I(nb)), ('items', lst(*[fmod(fdiv(x, I(1 << 8 * i)), I(256)) for i in range(nb)]))))
                c.eq('encoding, width %d' % w, v, want, fdom(w), c.where(ser), 'the encoding is not the low bytes of the element, least significant first')
            with c.part('decoder, width %d' % w):
                it = wi(c, w)
                v, _ = c.call(de, [mk('struct', 'deserializer', ())], it=it)
                n = v.a[0] if v.op == 'detuple' else None
                if n is None:
                    c.undecided('decoder, width %d' % w, v)
                else:
                    c.eq('decoder asks for the encoded number of bytes, width %d' % w, n, I(nb), fdom(w), c.where(de), 'another number of bytes is read than written')
                    if v.a[1] is not mk('nothing'):
                        c.eq('decoder reads an element of the same width, width %d' % w, v.a[1], I(w), fdom(w), c.where(de), 'an element of another width is read')
            decode(c, w, vs, False)
            b = c.p.fn(G + '::NUM_BYTES')
            if b is not None:
                with c.part('size'):
                    it = wi(c, w)
                    v = it.val(it.enter(b, [], wconst(b, w), None))
                    c.eq('published size, width %d' % w, v, I(nb), fdom(w), G + '::NUM_BYTES', 'the published encoded size is wrong')
