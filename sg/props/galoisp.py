"""C02: the C table routines implement the field; creation that fails leaves nothing behind (used by C04)."""
import glob
from base import *
import cfront
import dump

CREATE, MUL, DIV = 'galois_create_log_tables', 'galois_logtable_multiply', 'galois_logtable_divide'
TOP = 30


def ev_(t, env):
    return ev._ev(t, env, {})


def unit():
    r = dump.REPO
    for f in sorted(glob.glob(os.path.join(r, 'extern', '**', '*.c'), recursive=True)):
        u = cfront.CUnit(f, os.path.relpath(f, r))
        if CREATE in u.fns:
            return u
    return None


# ---------------------------------------------------------------- bits: each bit an affine form over the bits of the input
class Split(Exception):
    def __init__(self, f):
        self.f = f


class NotAffine(Exception):
    pass


ONE = -1


def bx(a, b):
    return a ^ b


def bits(t, cv):
    """Value of t as a list of affine forms (frozensets of input bits, ONE for the constant)."""
    if t.op == 'cv':
        return cv
    if t.op == 'int':
        if t.a[0] < 0:
            raise NotAffine
        return [frozenset([ONE]) if t.a[0] >> i & 1 else frozenset() for i in range(t.a[0].bit_length())]
    if t.op == 'poly':
        out = []
        for m, k in poly(t).items():
            if k < 0 or (m and (len(m) != 1)):
                raise NotAffine
            x = bits(m[0], cv) if m else [frozenset([ONE])]
            for i in range(k.bit_length()):
                if k >> i & 1:
                    y = [frozenset()] * i + x
                    ln = max(len(out), len(y))
                    out, y = out + [frozenset()] * (ln - len(out)), y + [frozenset()] * (ln - len(y))
                    if any(p and q for p, q in zip(out, y)):
                        raise NotAffine
                    out = [p | q for p, q in zip(out, y)]
        return out
    if t.op == 'xor':
        x, y = bits(t.a[0], cv), bits(t.a[1], cv)
        ln = max(len(x), len(y))
        return [(x[i] if i < len(x) else frozenset()) ^ (y[i] if i < len(y) else frozenset()) for i in range(ln)]
    if t.op in ('bit&', 'bit|'):
        x, y = bits(t.a[0], cv), bits(t.a[1], cv)
        one_, zero = frozenset([ONE]), frozenset()
        out = []
        for i in range(max(len(x), len(y))):
            p, q = (x[i] if i < len(x) else zero), (y[i] if i < len(y) else zero)
            if t.op == 'bit|':
                p, q = p ^ one_, q ^ one_
            r = zero if not p or not q else q if p == one_ else p if q == one_ or p == q else None
            if r is None:
                raise NotAffine
            out.append(r ^ one_ if t.op == 'bit|' else r)
        return out
    if t.op in ('mod', 'div', 'fdiv', 'fmod') and len(t.a) == 2 and t.a[1].op == 'int':
        k = t.a[1].a[0].bit_length() - 1
        if t.a[1].a[0] != 1 << k:
            raise NotAffine
        x = bits(t.a[0], cv)
        return x[:k] if 'mod' in t.op else x[k:]
    if t.op == 'ite':
        return bits(t.a[1] if truth(t.a[0], cv) else t.a[2], cv)
    raise NotAffine


def truth(c, cv):
    one_ = frozenset([ONE])
    if c.op == 'bool':
        return c.a[0]
    if c.op == 'not':
        return not truth(c.a[0], cv)
    if c.op == 'and':
        return all(truth(x, cv) for x in c.a)
    if c.op == 'or':
        return any(truth(x, cv) for x in c.a)
    if c.op in ('eq0', 'ge0'):
        p = dict(poly(c.a[0]))
        k = p.pop((), 0)
        if c.op == 'ge0' and len(p) == 1 and k <= 0:
            (m, q), = p.items()
            if q > 0 and len(m) == 1:
                x = bits(m[0], cv)
                return at_least(x, -(k // q))
        if c.op == 'ge0' and len(p) == 1 and k >= 0:
            (m, q), = p.items()
            if q < 0 and len(m) == 1:
                return not at_least(bits(m[0], cv), k // -q + 1)
        if c.op == 'eq0':
            # x - k == 0 bit by bit
            if len(p) == 1:
                (m, q), = p.items()
                if len(m) == 1 and q in (1, -1) and (k == 0 or (k < 0) == (q > 0)):
                    x, y = bits(m[0], cv), abs(k)
                    ln = max(len(x), y.bit_length())
                    d = [(x[i] if i < len(x) else frozenset()) ^ (one_ if y >> i & 1 else frozenset()) for i in range(ln)]
                    for f in d:
                        if f == one_:
                            return False
                    for f in d:
                        if f:
                            raise Split(f)
                    return True
            x = bits(c.a[0], cv)
            for f in x:
                if f == one_:
                    return False
            for f in x:
                if f:
                    raise Split(f)
            return True
    raise NotAffine


def at_least(x, k):
    one_ = frozenset([ONE])
    for i in range(max(len(x), k.bit_length()) - 1, -1, -1):
        f = x[i] if i < len(x) else frozenset()
        if f and f != one_:
            raise Split(f)
        b = 1 if f else 0
        if b != (k >> i & 1):
            return b > (k >> i & 1)
    return True


def modulus(step, w):
    """The polynomial p such that the step is multiplication by x modulo p (without its leading bit), or None."""
    leafs = []

    def go(cv, cons):
        try:
            leafs.append((cv, bits(step, cv)))
        except Split as s:
            if len(leafs) > 64 or cons > 24:
                raise NotAffine
            piv = max(x for x in s.f if x != ONE)
            for b in (0, 1):
                r = s.f - {piv}
                r = r ^ frozenset([ONE]) if b else r
                go([(f ^ r ^ frozenset([piv])) if piv in f else f for f in cv], cons + 1)
    go([frozenset([i]) for i in range(w)], 0)
    p = None
    for cv, out in leafs:
        top = cv[w - 1]
        if top - {ONE}:
            raise NotAffine
        want = [frozenset()] + cv[:w - 1]
        out = out + [frozenset()] * (w - len(out))
        if any(out[w:]):
            return None
        d = [a ^ b for a, b in zip(out, want)]
        if any(f - {ONE} for f in d):
            return None
        q = sum(1 << i for i, f in enumerate(d) if f)
        if not top:
            if q:
                return None
        elif p is None or p == q:
            p = q
        else:
            return None
    return p


def pmul(a, b, p, w):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> w & 1:
            a ^= p | 1 << w
    return r


def ppow(a, e, p, w):
    r = 1
    while e:
        if e & 1:
            r = pmul(r, a, p, w)
        a = pmul(a, a, p, w)
        e >>= 1
    return r


def primes(n):
    out, d = [], 2
    while d * d <= n:
        if n % d == 0:
            out.append(d)
            while n % d == 0:
                n //= d
        d += 1
    return out + ([n] if n > 1 else [])


def primitive(p, w):
    """x has order 2^w - 1 modulo x^w + p."""
    x = 2 if w > 1 else p & 1
    n = (1 << w) - 1
    return ppow(x, n, p, w) == 1 and all(ppow(x, n // q, p, w) != 1 for q in primes(n))


# ---------------------------------------------------------------- tables
class Tables:
    def __init__(self, u, w, malloc=None, before=()):
        self.u, self.w = u, w
        self.it = it = cfront.CInterp(u, malloc)
        for x in before:
            it.run(CREATE, [I(x)])
        self.ret = it.run(CREATE, [I(w)])


def c02(c):
    u = unit()
    c.require('table routines', u is not None and MUL in u.fns and DIV in u.fns, 'the table routines are not defined', 'extern/galois/galois.c')
    if u is None or MUL not in u.fns or DIV not in u.fns:
        return

    def where(f):
        return '%s:%s %s' % (u.rel, u.fns[f]['loc'].get('line', '?'), f)
    x, y = atom('x', 'i32'), atom('y', 'i32')
    for w in range(1, TOP + 1):
        with c.part('width %d' % w):
            width(c, u, w, x, y, where)
    c.analysed |= {'c::' + f for f in u.bodies}


def width(c, u, w, x, y, where):
    n = (1 << w) - 1
    t = Tables(u, w)
    it = t.it
    nm = 'width %d: ' % w
    dom = lambda r, k: Env({})
    c.eq(nm + 'creation succeeds', t.ret, I(0), dom, where(CREATE), 'creating the tables of a supported width reports failure')
    made = dict(it.store)
    ev0 = len(it.events)
    m = it.run(MUL, [x, y, I(w)])
    d = it.run(DIV, [x, y, I(w)])
    unk = list(it.unknown)
    # every read of memory lies inside its table: decided on the summaries below
    proof = shape(it, made, x, y, w, n) if not unk else None
    if isinstance(proof, tuple):
        c.bad(nm + 'modulus', proof[1], where(CREATE), {'modulus': proof[2]})
        return
    if proof is None and w <= 2:
        proof = table(m, d, w, n)
    small = w <= 4
    pc = [e for e in it.events if e.kind in ('panic', 'exit')]

    def trial(r, k):
        for e in pc:
            if not e.loops:
                if ev_(band(e.pc, e.args[0] if e.args else TRUE), Env({'x': 1, 'y': 1})):
                    return 'creating the tables aborts', {'at': e.loc}
            elif len(e.loops) == 1:
                v, b = e.loops[0]
                for i in range(ev_(b, Env({}))):
                    if ev_(replace(band(e.pc, e.args[0] if e.args else TRUE), {v: I(i)}), Env({'x': 1, 'y': 1})):
                        return 'creating the tables aborts', {'at': e.loc, 'step': i}
        return products(m, d, w, n, r, k)
    if small:
        c.hunt(nm + 'product and quotient', [m, d], trial, where(MUL), proved=proof, n=1)
    else:
        c.hunt(nm + 'product and quotient', [m, d], lambda r, k: windows(it, made, x, y, w, n), where(MUL), proved=proof, n=1)
    # asking again and other widths leave the tables alone
    it.store = dict(made)
    again = it.run(CREATE, [I(w)])
    c.eq(nm + 'asked again', again, I(0), dom, where(CREATE), 'asking again for existing tables reports failure')
    m2, d2 = it.run(MUL, [x, y, I(w)]), it.run(DIV, [x, y, I(w)])
    o = w + 1 if w < TOP else w - 1
    it.run(CREATE, [I(o)])
    m3, d3 = it.run(MUL, [x, y, I(w)]), it.run(DIV, [x, y, I(w)])

    def dom2(r, k):
        return Env({'x': r.randrange(min(n + 1, 1 << 7)), 'y': 1 + r.randrange(min(n, 1 << 7))})
    for tag, a, b in (('asking again', m2, d2), ('creating other tables', m3, d3)):
        same = a is m and b is d
        if same:
            c.ok(nm + tag + ' changes nothing', 'normal form')
        elif small:
            def tr(r, k, a=a, b=b):
                return products(a, b, w, n, r, k)
            c.hunt(nm + tag + ' changes nothing', [a, b], tr, where(CREATE), n=1)
        else:
            c.undecided(nm + tag + ' changes nothing', 'summaries differ')


def products(m, d, w, n, r, k):
    """All products and quotients of one small width against a field of that width."""
    e = lambda t, a, b: number(ev_(t, Env({'x': a, 'y': b})))
    mul = [[e(m, a, b) for b in range(n + 1)] for a in range(n + 1)]
    p = 0
    for a in range(n + 1):
        for b in range(n + 1):
            if (a == 0 or b == 0) and mul[a][b] != 0:
                return 'a product with a zero factor is not zero', {'x': a, 'y': b, 'product': mul[a][b]}
            if not 0 <= mul[a][b] <= n:
                return 'a product lies outside the field', {'x': a, 'y': b, 'product': mul[a][b]}
    # the modulus is what x * x^(w-1) gives
    p = mul[2][1 << (w - 1)] if w > 1 else 1
    for a in range(n + 1):
        for b in range(n + 1):
            want = pmul(a, b, p, w)
            if mul[a][b] != want:
                return 'the product is not the product of the field', {'x': a, 'y': b, 'product': mul[a][b], 'required': want}
    if not primitive(p, w):
        return 'the modulus polynomial is not primitive', {'modulus': bin(p | 1 << w)}
    for a in range(n + 1):
        for b in range(1, n + 1):
            q = e(d, a, b)
            if pmul(q, b, p, w) != a or not 0 <= q <= n:
                return 'the quotient times the divisor is not the dividend', {'x': a, 'y': b, 'quotient': q}
    return None


def number(v):
    if v == ('nothing',):
        raise Undef('uninitialised memory')
    if not isinstance(v, int) or isinstance(v, bool):
        raise Unknown('value of a product')
    return v


def windows(it, made, x, y, w, n):
    """Entries of the antilogarithm table of a large width that lie a period apart, as product and quotient reach them."""
    real, m, d = abstracted(it, made, x, y, w)
    inner = [t for t in subterms(m) if t.op == 'at' and t.a[0] in real and t.a[1] is not x and t.a[1] is not y]
    if len(inner) != 1:
        raise Unknown('width too large to compare tables entry by entry')
    E = real[inner[0].a[0]]
    lx, ly = [[t for t in subterms(m) if t.op == 'at' and t.a[1] is q] for q in (x, y)]
    if len(lx) != 1 or len(ly) != 1:
        raise Unknown('width too large to compare tables entry by entry')
    o = sub(sub(inner[0].a[1], lx[0]), ly[0])
    if o.op != 'int':
        raise Unknown('width too large to compare tables entry by entry')

    def entry(i):
        t = at(E, add(o, I(i)))
        if any(q.op == 'fix' and (q.a[0].op != 'int' or q.a[0].a[0] > 4000) for q in subterms(t)):
            return None
        v = ev_(t, Env({}))
        return v if isinstance(v, int) else 'nothing' if v == ('nothing',) else None
    e0 = [entry(i) for i in range(20)]
    if e0[0] is not None and e0[0] != 1:
        return 'the element with logarithm 0 is not 1', {'width': w, 'entry': e0[0]}
    for i in range(20):
        for j in ([i + n] if i <= n - 2 else []) + ([i - n] if i >= 1 else []):
            e = entry(j)
            if e is not None and e0[i] is not None and e != e0[i]:
                return 'table entries a period apart differ', {'width': w, 'index': j, 'entry': e, 'required': e0[i]}
    raise Unknown('width too large to compare tables entry by entry')


def table(m, d, w, n):
    try:
        if products(m, d, w, n, None, 0) is None:
            return 'constants folded: every entry of the tables of this width'
    except (Undef, Unknown):
        pass


def abstracted(it, made, x, y, w):
    """Product and quotient over opaque tables, and what the tables hold."""
    real = {}
    it.store = dict(made)
    for a in it.heap:
        ln = length(made[a])
        if ln.op != 'int':
            it.store = dict(made)
            raise Unknown('table of unknown size')
        s = atom('mem%d.%d' % (a, ln.a[0]), '[i32]')
        terms.ARRLEN[s] = ln
        real[s] = made[a]
        it.store[a] = s
    m, d = it.run(MUL, [x, y, I(w)]), it.run(DIV, [x, y, I(w)])
    it.store = dict(made)
    return real, m, d


def shape(it, made, x, y, w, n):
    """Product and quotient read E[o + L[x] + L[y]] and E[o + L[x] - L[y]]; L and E come from powers of x."""
    try:
        real, m, d = abstracted(it, made, x, y, w)
    except Unknown:
        return None
    g = [t for t in subterms(m) if t.op == 'at' and t.a[1] is x]
    if len(g) != 1:
        return None
    L = g[0].a[0]
    zx, zy = eq0(x), eq0(y)
    lx, ly = at(L, x), at(L, y)
    inner = [t for t in subterms(m) if t.op == 'at' and lx in subterms(t.a[1]) and t.a[1] is not x]
    if len(inner) != 1:
        return None
    E = inner[0].a[0]
    o = sub(sub(inner[0].a[1], lx), ly)
    if o.op != 'int':
        return None
    o = o.a[0]
    if m is not ite(bor(zx, zy), I(0), at(E, add(I(o), add(lx, ly)))):
        return None
    if d is not ite(zy, I(-1), ite(zx, I(0), at(E, add(I(o), sub(lx, ly))))) and \
            replace(replace(d, {zy: FALSE}), {}) is not ite(zx, I(0), at(E, add(I(o), sub(lx, ly)))):
        return None
    if length(L).op != 'int' or length(E).op != 'int' or length(L).a[0] < n + 1:
        return None
    if o - (n - 1) < 0 or o + 2 * (n - 1) >= length(E).a[0]:
        return None
    if L not in real or E not in real:
        return None
    L, E = real[L], real[E]
    # antilogarithms: three periods of the same recurrence
    j = fresh(I(n))
    B = at(E, add(I(o), j))
    if B.op != 'fix' or B.a[0] is not j or len(B.a[3].a) != 1 or B.a[3].a[0] is not I(1):
        return None
    if at(E, add(I(o + n), j)) is not B or at(E, add(I(o - n), j)) is not B:
        return None
    step = B.a[2].a[0]
    if any(q.op == 'bv' for q in subterms(step)):
        return None
    try:
        p = modulus(step, w)
    except (NotAffine, RecursionError):
        return None
    if p is None:
        return None
    if not primitive(p, w):
        return 'bad', 'the powers of x do not run through all nonzero elements: the modulus is not primitive', bin(p | 1 << w)
    # logarithms: the place of each power holds its exponent
    if L.op != 'scat' or L.a[0] is not I(n):
        return None
    v = fresh(I(n))
    gd, i, val = inst3(L, v)
    if gd is not TRUE or val is not v or i is not replace(B, {j: v}):
        return None
    return 'normal form; the step is multiplication by x modulo a primitive polynomial (affine bit domain)'


def inst3(s, v):
    r = terms.inst(s, v)
    return r.a


prop('C02')(c02)
TECH['C02'] = ('dataflow summaries of the C table routines (clang syntax tree), affine bit-vector domain for the table '
               'recurrence, order of x modulo the polynomial constants')


def reports(c):
    """Part of C04: creation that cannot allocate reports it and does not count as done."""
    u = unit()
    if u is None:
        return
    w0 = '%s:%s %s' % (u.rel, u.fns[CREATE]['loc'].get('line', '?'), CREATE)
    for w in (1, 8, 18, 29, 30):
        for k in (1, 2, 3):
            nm = 'tables of width %d, allocation %d fails' % (w, k)
            with c.part(nm):
                t = Tables(u, w, lambda q: q != k)
                if t.it.nmalloc < k:
                    continue
                dom = lambda r, k: Env({})
                c.eq(nm, eqt(t.ret, I(0), 'int'), FALSE, dom, w0, 'creation without memory reports success')
                r2 = t.it.run(CREATE, [I(w)])
                if t.it.nmalloc == k:
                    c.eq(nm + ', asked again', eqt(r2, I(0), 'int'), FALSE, dom, w0, 'tables that were never filled count as created')
                else:
                    ref = Tables(u, w)
                    x, y = atom('x', 'i32'), atom('y', 'i32')
                    a, b = t.it.run(MUL, [x, y, I(w)]), ref.it.run(MUL, [x, y, I(w)])
                    if a is b:
                        c.ok(nm + ', asked again', 'normal form')
                    else:
                        c.undecided(nm + ', asked again', 'tables differ')
