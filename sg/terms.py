"""Value domain of the dataflow analysis: hash-consed terms in algebraic normal form.

Integers are kept as polynomials over atoms, field elements as polynomials over GF(2), sequences as
comprehensions (length, element), concatenations and flattenings.  Two expressions that denote the
same value under these laws get the same term, independent of how the source spells them.
"""
import hashlib

_tab = {}


class T:
    __slots__ = ('op', 'a', 'dg', 'hb', 'fv', '_u')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.dg < o.dg


def _flat_children(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from _flat_children(x)


def _dg(x):
    if isinstance(x, T):
        return x.dg
    if isinstance(x, tuple):
        return b'(' + b','.join(_dg(y) for y in x) + b')'
    return repr(x).encode()


BINDERS = {'posn', 'arr', 'sum', 'gfsum', 'gfprod', 'cnt', 'mapb', 'forall', 'exists', 'filt', 'scat', 'fix', 'wst', 'wfin'}


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.a = a
    t.dg = hashlib.md5(op.encode() + b'|' + b';'.join(_dg(x) for x in a)).digest()
    h = 0
    fv = frozenset()
    for c in _flat_children(a):
        if c.hb > h:
            h = c.hb
        if c.fv:
            fv = fv | c.fv
    if op == 'tv':
        fv = frozenset((t,))
    t.fv = fv
    t.hb = h + 1 if op in BINDERS else h
    t._u = None
    _tab[key] = t
    return t


# ---------------------------------------------------------------- basic atoms
UNIT = mk('tup')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
NOTHING = mk('nothing')
INF = mk('infty')


def I(v):
    return mk('int', v)


def S(s):
    return mk('str', s)


def atom(name, ty=None):
    t = mk('param', name)
    if ty:
        TY[t] = ty
    return t


TY = {}          # term -> rust type string
BOUND = {}       # temp var -> exclusive upper bound (term)
FACTS = []       # integer terms known to be >= 0
_ctr = [0]


def fresh(bound=None):
    _ctr[0] += 1
    v = mk('tv', _ctr[0])
    if bound is not None:
        BOUND[v] = bound
    return v


# ---------------------------------------------------------------- integers
def poly(t):
    if t.op == 'int':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a[0])
    return {(t,): 1}


def unpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), [x.dg for x in mc[0]], mc[1]))))


def _isint(t):
    return t.op in ('int', 'poly')


def add(a, b):
    if a is INF or b is INF:
        return INF
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return unpoly(d)


def neg(a):
    return unpoly({m: -c for m, c in poly(a).items()})


def sub(a, b):
    if a is INF:
        return INF
    return add(a, neg(b))


def mul(a, b):
    if a is INF or b is INF:
        return INF
    d = {}
    for m1, c1 in poly(a).items():
        for m2, c2 in poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.dg))
            d[m] = d.get(m, 0) + c1 * c2
    return unpoly(d)


def _mono_div(m, b):
    """m / b for monomials (tuples of atoms); None when not divisible."""
    l = list(m)
    for x in b:
        if x in l:
            l.remove(x)
        else:
            return None
    return tuple(l)


def _split(a, b):
    """a = q*b + r by monomial division."""
    pb = poly(b)
    if len(pb) != 1:
        if a is b:
            return I(1), I(0)
        # try a = k*b + r for a small integer k or an atom multiple
        pa = poly(a)
        lead = max(pb, key=lambda m: (len(m), [x.dg for x in m]))
        q = {}
        r = dict(pa)
        for m, c in list(pa.items()):
            mm = _mono_div(m, lead)
            if mm is None or lead == ():
                continue
            k = c // pb[lead] if pb[lead] > 0 else 0
            if not k:
                continue
            q[mm] = q.get(mm, 0) + k
            for m2, c2 in pb.items():
                key = tuple(sorted(m2 + mm, key=lambda x: x.dg))
                r[key] = r.get(key, 0) - c2 * k
        r = {m: c for m, c in r.items() if c}
        if len(r) < len({m: c for m, c in pa.items() if c}):
            return unpoly(q), unpoly(r)
        return I(0), a
    (mb, cb), = pb.items()
    if cb < 0:
        return I(0), a
    q = {}
    r = {}
    for m, c in poly(a).items():
        mm = _mono_div(m, mb)
        if mm is not None:
            k, rem = divmod(c, cb)
            if k:
                q[mm] = q.get(mm, 0) + k
            if rem:
                r[m] = r.get(m, 0) + rem
        else:
            r[m] = r.get(m, 0) + c
    return unpoly(q), unpoly(r)


def fdiv(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] > 0:
        return I(a.a[0] // b.a[0])
    if b.op == 'int' and b.a[0] == 1:
        return a
    q, r = _split(a, b)
    if r.op == 'int' and r.a[0] == 0:
        return q
    if nonneg(r) and nonneg(sub(sub(b, r), I(1))):
        return q
    if nonneg(sub(I(-1), r)) and nonneg(add(r, b)):
        return sub(q, I(1))
    base = mk('div', r, b)
    return add(q, base)


def fmod(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0] > 0:
        return I(a.a[0] % b.a[0])
    if b.op == 'int' and b.a[0] == 1:
        return I(0)
    q, r = _split(a, b)
    if nonneg(r) and nonneg(sub(sub(b, r), I(1))):
        return r
    if nonneg(sub(I(-1), r)) and nonneg(add(r, b)):
        return add(r, b)
    return mk('mod', r, b)


def ceildiv(a, b):
    return add(I(1), fdiv(sub(a, I(1)), b))


_nn = {}


def nonneg(p, depth=2):
    if p.op == 'int':
        return p.a[0] >= 0
    k = (p, depth, len(FACTS))
    r = _nn.get(k)
    if r is None:
        r = _nn[k] = nonneg_(p, depth)
    return r


def nonneg_(p, depth=2):
    """Sound check that the integer term p is >= 0 (all atoms are naturals)."""
    if p is INF:
        return True
    d = poly(p)
    if all(c >= 0 for c in d.values()):
        return True
    for m, c in d.items():
        if c > 0 and len(m) == 1 and m[0].op == 'max' and depth > 0:
            d2 = dict(d)
            del d2[m]
            for y in m[0].a:
                if nonneg(add(unpoly(d2), mul(I(c), y)), depth - 1):
                    return True
    # replace bounded variables in negative monomials by their maximum
    for m, c in d.items():
        if c < 0:
            for x in m:
                if x.op == 'tv' and x in BOUND and BOUND[x] is not INF:
                    rest = list(m)
                    rest.remove(x)
                    if x in rest:
                        continue
                    repl = mul(unpoly({tuple(rest): c}), sub(BOUND[x], I(1)))
                    d2 = dict(d)
                    del d2[m]
                    if depth >= -6 and nonneg(add(unpoly(d2), repl), depth - 1):
                        return True
                # floor division: div(r,b)*b <= r
                if x.op == 'div' and depth > 0:
                    r, b = x.a
                    rest = list(m)
                    rest.remove(x)
                    qq = _mono_div(tuple(rest), list(poly(b))[0]) if len(poly(b)) == 1 else None
                    if qq is not None and c % list(poly(b).values())[0] == 0:
                        k = c // list(poly(b).values())[0]
                        d2 = dict(d)
                        del d2[m]
                        if nonneg(add(unpoly(d2), mul(unpoly({qq: k}), r)), depth - 1):
                            return True
    if depth > 0:
        for f in FACTS:
            if f is p:
                return True
            if nonneg(sub(p, f), depth - 1 if depth <= 1 else 0):
                return True
        if depth > 1:
            for f in FACTS:
                q = sub(p, f)
                if len(poly(q)) <= len(d) + 1:
                    for g in FACTS:
                        if nonneg(sub(q, g), 0):
                            return True
    return False


def imin(a, b):
    if a is b:
        return a
    if nonneg(sub(b, a)):
        return a
    if nonneg(sub(a, b)):
        return b
    return mk('min', *sorted((a, b)))


def imax(a, b):
    if a is b:
        return a
    if nonneg(sub(b, a)):
        return b
    if nonneg(sub(a, b)):
        return a
    return mk('max', *sorted((a, b)))


def clog2(x):
    """Ceiling of the base two logarithm (0 for 0 and 1)."""
    if x.op == 'int' and x.a[0] >= 0:
        return I(max(x.a[0] - 1, 0).bit_length())
    return mk('clog2', x)


# ---------------------------------------------------------------- booleans
def ge0(p):
    if p.op == 'int':
        return TRUE if p.a[0] >= 0 else FALSE
    if nonneg(p):
        return TRUE
    if nonneg(sub(neg(p), I(1))):
        return FALSE
    return mk('ge0', p)


def eq0(p):
    if p.op == 'int':
        return TRUE if p.a[0] == 0 else FALSE
    if nonneg(sub(p, I(1))) or nonneg(sub(neg(p), I(1))):
        return FALSE
    d = poly(p)
    lead = sorted(d, key=lambda m: (len(m), [x.dg for x in m]))[-1]
    if d[lead] < 0:
        p = neg(p)
    return mk('eq0', p)


def lt(a, b):
    return ge0(sub(sub(b, a), I(1)))


def le(a, b):
    return ge0(sub(b, a))


def bnot(c):
    if c.op == 'bool':
        return FALSE if c.a[0] else TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'ge0':
        return ge0(sub(neg(c.a[0]), I(1)))
    if c.op == 'and':
        return bor(*[bnot(x) for x in c.a])
    if c.op == 'or':
        return band(*[bnot(x) for x in c.a])
    if c.op == 'ite':
        return ite(c.a[0], bnot(c.a[1]), bnot(c.a[2]))
    if c.op == 'case':
        return case(c.a[0], {v: bnot(x) for v, x in c.a[1]})
    if c.op == 'exists':
        x, b = open_(c)
        return binder('forall', c.a[0], x, bnot(b))
    if c.op == 'forall':
        x, b = open_(c)
        return binder('exists', c.a[0], x, bnot(b))
    return mk('not', c)


def band(*cs):
    s = []
    for c in cs:
        if c.op == 'bool':
            if not c.a[0]:
                return FALSE
            continue
        if c.op == 'and':
            s.extend(c.a)
        else:
            s.append(c)
    u = set(s)
    for c in u:
        if bnot(c) in u:
            return FALSE
    # conflicting variants of the same scrutinee
    seen = {}
    for c in u:
        if c.op == 'isv':
            if c.a[0] in seen and seen[c.a[0]] != c.a[1]:
                return FALSE
            seen[c.a[0]] = c.a[1]
    # all variants but one excluded
    neg = {}
    for c in u:
        if c.op == 'not' and c.a[0].op == 'isv' and c.a[0].a[0] not in seen:
            neg.setdefault(c.a[0].a[0], set()).add(c.a[0].a[1])
    for e, vs in neg.items():
        left = set(variants_of(next(iter(vs))) or ()) - vs
        if len(left) == 1 and len(vs) > 1:
            v, = left
            u = {c for c in u if not (c.op == 'not' and c.a[0].op == 'isv' and c.a[0].a[0] is e)}
            u.add(mk('isv', e, v))
            seen[e] = v
    # drop not-isv implied by isv
    u = {c for c in u if not (c.op == 'not' and c.a[0].op == 'isv' and c.a[0].a[0] in seen and seen[c.a[0].a[0]] != c.a[0].a[1])}
    # a ∧ (a → b) style simplification: or-clauses containing a true member are dropped
    res = set()
    for c in u:
        if c.op == 'or':
            if any(x in u for x in c.a):
                continue
            rest = [x for x in c.a if bnot(x) not in u]
            if len(rest) != len(c.a):
                r = bor(*rest)
                if r is FALSE:
                    return FALSE
                c = r
        res.add(c)
    if not res:
        return TRUE
    if len(res) == 1:
        return next(iter(res))
    return mk('and', *sorted(res))


def bor(*cs):
    s = []
    for c in cs:
        if c.op == 'bool':
            if c.a[0]:
                return TRUE
            continue
        if c.op == 'or':
            s.extend(c.a)
        else:
            s.append(c)
    u = set(s)
    for c in u:
        if bnot_raw(c) in u:
            return TRUE
    # complementary variants of one scrutinee cover everything
    by = {}
    for c in u:
        if c.op == 'isv':
            by.setdefault(c.a[0], set()).add(c.a[1])
    for e, vs in by.items():
        allv = variants_of(next(iter(vs)))
        if allv and set(allv) <= vs:
            return TRUE
    res = set()
    for c in u:
        if c.op == 'and':
            if any(x in u for x in c.a):
                continue
            rest = [x for x in c.a if bnot_raw(x) not in u]
            if len(rest) != len(c.a):
                c = band(*rest)
        res.add(c)
    if TRUE in res:
        return TRUE
    if not res:
        return FALSE
    if len(res) == 1:
        return next(iter(res))
    return mk('or', *sorted(res))


def bnot_raw(c):
    if c.op in ('and', 'or'):
        return None
    return bnot(c)


def eqt(a, b, kind=None):
    """Equality of two values; kind: 'int', 'gf' or None."""
    if a is b:
        return TRUE
    if a.op == 'bool' and b.op == 'bool':
        return FALSE
    if a.op == 'bool':
        a, b = b, a
    if b.op == 'bool' and kind == 'bool':
        return a if b.a[0] else bnot(a)
    if kind == 'int' or _isint(a) or _isint(b):
        return eq0(sub(a, b))
    if kind == 'gf':
        return gfeq(a, b)
    if a.op == 'opt' and b.op == 'opt':
        return ite(a.a[0], band(b.a[0], eqt(a.a[1], b.a[1])), bnot(b.a[0]))
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return band(*[eqt(x, y) for x, y in zip(a.a, b.a)])
    return mk('eq', *sorted((a, b)))


# ---------------------------------------------------------------- choice
ADTS = {}   # variant path -> list of all variant paths of the enum


def variants_of(v):
    return ADTS.get(v)


def isv(e, v):
    if e.op == 'ctor':
        return TRUE if e.a[0] == v else FALSE
    if e.op == 'ite':
        return ite(e.a[0], isv(e.a[1], v), isv(e.a[2], v))
    if e.op == 'case':
        return case(e.a[0], {w: isv(x, v) for w, x in e.a[1]})
    return mk('isv', e, v)


def vfield(e, v, i):
    if e.op == 'ctor' and e.a[0] == v:
        return e.a[1 + i]
    if e.op in ('ite', 'case'):
        # only meaningful under isv(e, v)
        live = [x for x in branches(e) if isv(x, v) is not FALSE]
        if len(live) == 1:
            return vfield(live[0], v, i)
        if e.op == 'ite':
            return ite(e.a[0], vfield(e.a[1], v, i), vfield(e.a[2], v, i))
        return case(e.a[0], {w: vfield(x, v, i) for w, x in e.a[1]})
    if e.op == 'ctor':
        return NOTHING
    return mk('vf', e, v, i)


def branches(e):
    if e.op == 'ite':
        return branches(e.a[1]) + branches(e.a[2])
    if e.op == 'case':
        r = []
        for _, x in e.a[1]:
            r += branches(x)
        return r
    return [e]


def restrict(t, e, v):
    """t under the assumption that enum value e has variant v."""
    if e not in subterms(t):
        return t

    def f(x):
        if x.op == 'case' and x.a[0] is e:
            return dict(x.a[1]).get(v)
        if x.op == 'isv' and x.a[0] is e:
            return TRUE if x.a[1] == v else FALSE
        return None
    return transform(t, f)


def case(e, d):
    if e.op == 'ctor':
        return d.get(e.a[0], NOTHING)
    if e.op in ('ite',):
        return ite(e.a[0], case(e.a[1], d), case(e.a[2], d))
    if e.op == 'case':
        return case(e.a[0], {w: case(x, d) for w, x in e.a[1]})
    vals = [x for x in d.values() if x is not NOTHING]
    if vals and all(x is vals[0] for x in vals):
        return vals[0]
    d = {v: restrict(x, e, v) for v, x in d.items()}
    vals = [x for x in d.values() if x is not NOTHING]
    if vals and all(x is vals[0] for x in vals):
        return vals[0]
    for op in ('opt', 'res', 'tup', 'struct'):
        if vals and all(x.op == op and len(x.a) == len(vals[0].a) for x in vals) and op != 'struct':
            n = len(vals[0].a)
            parts = []
            for i in range(n):
                parts.append(case(e, {v: (x.a[i] if x is not NOTHING else NOTHING) for v, x in d.items()}))
            if op == 'opt':
                return opt(parts[0], parts[1])
            if op == 'res':
                return res(*parts)
            return mk(op, *parts)
    if vals and all(x.op == 'struct' and x.a[0] == vals[0].a[0] and [n for n, _ in x.a[1]] == [n for n, _ in vals[0].a[1]] for x in vals):
        fs = []
        for i, (n, _) in enumerate(vals[0].a[1]):
            fs.append((n, case(e, {v: (x.a[1][i][1] if x is not NOTHING else NOTHING) for v, x in d.items()})))
        return mk('struct', vals[0].a[0], tuple(fs))
    if vals and all(x.op == 'cat' for x in vals) and len({x.a[0] for x in vals}) == 1:
        return cat(vals[0].a[0], case(e, {v: (cat(*x.a[1:]) if x is not NOTHING else NOTHING) for v, x in d.items()}))
    if vals and all(x.op == 'map' for x in vals):
        return mk('map', case(e, {v: (x.a[0] if x is not NOTHING else NOTHING) for v, x in d.items()}))
    bools = all(x.op == 'bool' for x in vals)
    if bools and vals:
        vs = [v for v, x in d.items() if x is TRUE]
        if len(vs) == 1 and len(vals) == len(d):
            return mk('isv', e, vs[0])
    return mk('case', e, tuple(sorted(d.items(), key=lambda kv: kv[0])))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is NOTHING:
        return b
    if b is NOTHING:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'ge0':
        # canonical polarity
        n = ge0(sub(neg(c.a[0]), I(1)))
        if n.dg < c.dg:
            return ite(n, b, a)
    if c.op == 'isv':
        vs = variants_of(c.a[1])
        if vs:
            return case(c.a[0], {v: (a if v == c.a[1] else b) for v in vs})
    if c.op == 'case':
        if all(x.op == 'bool' for _, x in c.a[1]):
            return case(c.a[0], {v: (a if x is TRUE else b) for v, x in c.a[1]})
    if c.op == 'ite' and c.a[1].op == 'bool' and c.a[2].op == 'bool':
        return ite(c.a[0], a if c.a[1] is TRUE else b, a if c.a[2] is TRUE else b)
    if a.op == 'bool' and b.op == 'bool':
        return c if a is TRUE else bnot(c)
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a.op == b.op == 'opt':
        return opt(ite(c, a.a[0], b.a[0]), ite(c, a.a[1], b.a[1]))
    if a.op == b.op == 'res':
        return res(*[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == 'tup' and len(a.a) == len(b.a):
        return mk('tup', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == 'struct' and a.a[0] == b.a[0] and [n for n, _ in a.a[1]] == [n for n, _ in b.a[1]]:
        return mk('struct', a.a[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.a[1], b.a[1])))
    if a.op == b.op == 'map':
        return mk('map', ite(c, a.a[0], b.a[0]))
    if a.op == 'cat' and b.op == 'cat' and a.a[0] is b.a[0]:
        return cat(a.a[0], ite(c, cat(*a.a[1:]), cat(*b.a[1:])))
    if a.op == 'cat' and a.a[0] is b:
        return cat(b, ite(c, cat(*a.a[1:]), EMPTY))
    if b.op == 'cat' and b.a[0] is a:
        return cat(a, ite(c, EMPTY, cat(*b.a[1:])))
    # exact ceiling division written as a conditional
    if c.op == 'eq0' and c.a[0].op == 'mod':
        x, m = c.a[0].a
        if sub(b, a) == I(1):
            # a must be x/m (up to the split-off quotient)
            q = sub(a, fdiv(x, m))
            if q.op == 'int' or not (subterms(q) & {c.a[0]}):
                return add(q, ceildiv(x, m))
    if c.op == 'eq0' and (_isint(a) or _isint(b)):
        # x == k ? k' : e   where e[x:=k] == k'
        p = poly(c.a[0])
        for m, cf in p.items():
            if len(m) == 1 and cf in (1, -1) and m[0].op in ('tv', 'param', 'len', 'field'):
                val = mul(I(-cf), sub(c.a[0], unpoly({m: cf})))
                if replace(b, {m[0]: val}) is a:
                    return b
    # choice between a bound and the value it bounds is min/max
    if c.op == 'ge0':
        if sub(a, b) is c.a[0]:
            return imax(a, b)
        if sub(b, a) is c.a[0]:
            return imin(a, b)
        if sub(sub(a, b), I(1)) is c.a[0]:
            return imax(a, b)
        if sub(sub(b, a), I(1)) is c.a[0]:
            return imin(a, b)
    return mk('ite', c, a, b)


def assume(t, c, val):
    """Simplify t knowing condition c has truth value val (syntactic)."""
    if c not in subterms(t):
        if c.op == 'and' and val:
            for x in c.a:
                t = assume(t, x, True)
        elif c.op == 'or' and not val:
            for x in c.a:
                t = assume(t, x, False)
        return t
    r = TRUE if val else FALSE
    return transform(t, lambda x: r if x is c else None)


# ---------------------------------------------------------------- options / results / structs
def opt(c, v):
    return mk('opt', c, v)


def some(v):
    return mk('opt', TRUE, v)


NONE = mk('opt', FALSE, NOTHING)


def res(c, ok, err):
    return mk('res', c, ok, err)


def is_some(o):
    if o.op == 'opt':
        return o.a[0]
    if o.op == 'ite':
        return ite(o.a[0], is_some(o.a[1]), is_some(o.a[2]))
    if o.op == 'case':
        return case(o.a[0], {v: is_some(x) for v, x in o.a[1]})
    return mk('is_some', o)


def opt_val(o):
    if o.op == 'opt':
        return o.a[1]
    if o.op == 'ite':
        return ite(o.a[0], opt_val(o.a[1]), opt_val(o.a[2]))
    if o.op == 'case':
        return case(o.a[0], {v: opt_val(x) for v, x in o.a[1]})
    return mk('optval', o)


def is_ok(o):
    if o.op == 'res':
        return o.a[0]
    if o.op == 'ite':
        return ite(o.a[0], is_ok(o.a[1]), is_ok(o.a[2]))
    return mk('is_ok', o)


def ok_val(o):
    if o.op == 'res':
        return o.a[1]
    if o.op == 'ite':
        return ite(o.a[0], ok_val(o.a[1]), ok_val(o.a[2]))
    return mk('okval', o)


def err_val(o):
    if o.op == 'res':
        return o.a[2]
    return mk('errval', o)


def field(e, n):
    if e.op == 'struct':
        for k, v in e.a[1]:
            if k == n:
                return v
        return mk('field', e, n)
    if e.op == 'tup' and n.isdigit() and int(n) < len(e.a):
        return e.a[int(n)]
    if e.op == 'ctor' and n.isdigit() and int(n) + 1 < len(e.a):
        return e.a[int(n) + 1]
    if e.op == 'ite':
        return ite(e.a[0], field(e.a[1], n), field(e.a[2], n))
    if e.op == 'case':
        return case(e.a[0], {v: (field(x, n) if x is not NOTHING else x) for v, x in e.a[1]})
    if e.op == 'gfwrap' and n == '0':
        return e.a[0]
    if e.op == 'setf':
        return e.a[2] if e.a[1] == n else field(e.a[0], n)
    return mk('field', e, n)


def setfield(e, n, v):
    if e.op == 'struct':
        return mk('struct', e.a[0], tuple((k, v if k == n else x) for k, x in e.a[1]))
    if e.op == 'tup' and n.isdigit():
        l = list(e.a)
        if int(n) < len(l):
            l[int(n)] = v
            return mk('tup', *l)
    if e.op == 'ite':
        return ite(e.a[0], setfield(e.a[1], n, v), setfield(e.a[2], n, v))
    return mk('setf', e, n, v)


# ---------------------------------------------------------------- GF(2^W)
GZERO = mk('gf', ())
GONE = mk('gf', ((),))


def gfp(t):
    """Monomial set of a field term."""
    if t.op == 'gf':
        return frozenset(t.a[0])
    return frozenset(((t,),))


def ungf(s):
    if len(s) == 1:
        m, = s
        if len(m) == 1:
            return m[0]
    return mk('gf', tuple(sorted(s, key=lambda m: (len(m), [x.dg for x in m]))))


def _lift1(f, a):
    if a.op == 'ite':
        return ite(a.a[0], f(a.a[1]), f(a.a[2]))
    return None


def gadd(a, b):
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == 'ite':
            return ite(x.a[0], gadd(x.a[1], assume(y, x.a[0], True)), gadd(x.a[2], assume(y, x.a[0], False)))
        if x.op == 'case':
            return case(x.a[0], {v: gadd(z, restrict(y, x.a[0], v)) for v, z in x.a[1]})
    return ungf(gfp(a) ^ gfp(b))


def gmul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            return ite(x.a[0], gmul(x.a[1], assume(y, x.a[0], True)), gmul(x.a[2], assume(y, x.a[0], False)))
        if x.op == 'case':
            return case(x.a[0], {v: gmul(z, restrict(y, x.a[0], v)) for v, z in x.a[1]})
    s = set()
    for m1 in gfp(a):
        for m2 in gfp(b):
            l = list(m1) + list(m2)
            # cancel x * x^-1
            ch = True
            while ch:
                ch = False
                for x in l:
                    if x.op == 'ginv' and x.a[0] in l:
                        l.remove(x)
                        l.remove(x.a[0])
                        ch = True
                        break
            m = tuple(sorted(l, key=lambda x: x.dg))
            s ^= {m}
    return ungf(frozenset(s))


def ginv(a):
    if a is GONE:
        return GONE
    if a.op == 'ginv':
        return a.a[0]
    p = gfp(a)
    if len(p) == 1:
        m, = p
        if len(m) > 1:
            r = GONE
            for x in m:
                r = gmul(r, ginv(x))
            return r
    if a.op == 'ite':
        return ite(a.a[0], ginv(a.a[1]), ginv(a.a[2]))
    return mk('ginv', a)


def gdiv(a, b):
    return gmul(a, ginv(b))


def gfint(t):
    """Field element with integer representation t."""
    if t.op == 'int':
        if t.a[0] == 0:
            return GZERO
        if t.a[0] == 1:
            return GONE
    if t.op == 'gfval':
        return t.a[0]
    if t.op == 'ite':
        return ite(t.a[0], gfint(t.a[1]), gfint(t.a[2]))
    return mk('gfint', t)


def gfval(t):
    if t is GZERO:
        return I(0)
    if t is GONE:
        return I(1)
    if t.op == 'gfint':
        return t.a[0]
    if t.op == 'ite':
        return ite(t.a[0], gfval(t.a[1]), gfval(t.a[2]))
    return mk('gfval', t)


def gfeq(a, b):
    if a.op == 'gfint' and b.op == 'gfint':
        return eq0(sub(a.a[0], b.a[0]))
    s = gadd(a, b)
    if s is GZERO:
        return TRUE
    if s is GONE:
        return FALSE
    return mk('gfz', s)   # s == 0


# ---------------------------------------------------------------- sequences
def binder(op, n, v, body, *extra):
    """Close `body` over temp variable v with height naming."""
    h = 1 + body.hb
    b = _subst_raw(body, v, mk('bv', h)) if v in body.fv else body
    return mk(op, n, h, b, *extra)


def _subst_raw(t, v, w):
    memo = {}

    def go(x):
        if v not in x.fv:
            return x
        r = memo.get(x)
        if r is None:
            if x is v:
                r = w
            else:
                r = _remk(x.op, [goa(y) for y in x.a])
            memo[x] = r
            if x in TY and r not in TY:
                TY[r] = TY[x]
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y
    return go(t)


def _dgk(x):
    return x.dg


def _remk(op, a):
    """mk after a renaming of variables: commutative operands are put back in order."""
    if op == 'poly':
        d = [(tuple(sorted(m, key=_dgk)), c) for m, c in a[0]]
        return mk('poly', tuple(sorted(d, key=lambda mc: (len(mc[0]), [x.dg for x in mc[0]], mc[1]))))
    if op == 'gf':
        d = [tuple(sorted(m, key=_dgk)) for m in a[0]]
        return mk('gf', tuple(sorted(d, key=lambda m: (len(m), [x.dg for x in m]))))
    if op in ('and', 'or', 'min', 'max', 'eq'):
        return mk(op, *sorted(a))
    if op == 'eq0' and a[0].op == 'poly':
        d = dict(a[0].a[0])
        lead = sorted(d, key=lambda m: (len(m), [x.dg for x in m]))[-1]
        if d[lead] < 0:
            return mk('eq0', unpoly({m: -c for m, c in d.items()}))
    return mk(op, *a)


def open_(t):
    """(fresh var, body) of a binder term."""
    n, h, body = t.a[0], t.a[1], t.a[2]
    v = fresh(n)
    return v, replace(body, {mk('bv', h): v})


_opn = {}


def open_c(t):
    """Like open_, with one variable per term; only for uses where the variable does not escape."""
    r = _opn.get(t)
    if r is None:
        r = _opn[t] = open_(t)
    return r


_inst = {}


def inst(t, i):
    k = (t, i)
    r = _inst.get(k)
    if r is None:
        r = _inst[k] = replace(t.a[2], {mk('bv', t.a[1]): i})
    return r


def arr(n, v, body):
    # eta
    if body.op == 'at' and body.a[1] is v and v not in body.a[0].fv:
        if length(body.a[0]) is n:
            return body.a[0]
    if n is I(0):
        return EMPTY
    if n is I(1) and v in body.fv:
        return one(replace(body, {v: I(0)}))
    return binder('arr', n, v, body)


def lst(*xs):
    """Literal list."""
    if not xs:
        return EMPTY
    segs = []
    for x in xs:
        segs.append(mk('arr', I(1), 1 + x.hb, x))
    return cat(*segs)


EMPTY = mk('arr', I(0), 1, NOTHING)


def one(x):
    return mk('arr', I(1), 1 + x.hb, x)


def cat(*segs):
    out = []
    for s in segs:
        if s.op == 'cat':
            out.extend(s.a)
        elif s is EMPTY:
            continue
        elif s.op == 'arr' and s.a[0] is I(0):
            continue
        else:
            out.append(s)
    if not out:
        return EMPTY
    # merge adjacent segments x[0..k] ++ x[k..n]
    merged = [out[0]]
    for s in out[1:]:
        p = merged[-1]
        m = _merge(p, s)
        if m is not None:
            merged[-1] = m
        else:
            merged.append(s)
    out = merged
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def _merge(p, s):
    if p.op == 'arr' and s.op == 'arr' and p.a[0].op != 'int' and p.a[0] is not INF:
        if s.a[0] is I(1) and inst(p, p.a[0]) is s.a[2] and p.a[2].op != 'at':
            k = add(p.a[0], I(1))
            v = fresh(k)
            return arr(k, v, inst(p, v))
        # two comprehensions over the same base at consecutive offsets
        v = fresh(add(p.a[0], s.a[0]))
        b1 = inst(p, v)
        b2 = inst(s, sub(v, p.a[0]))
        if b1 is b2:
            return arr(add(p.a[0], s.a[0]), v, b1)
    return None


_len = {}


LENHOOK = []
ROWLEN = {}     # sequences whose rows all have one length


def length(t):
    r = _len.get(t)
    if r is None:
        r = length_(t)
        if r.op != 'len':
            _len[t] = r
    return r


OPLEN = {}       # operator -> length of its terms


def length_(t):
    op = t.op
    if op in OPLEN:
        return OPLEN[op](t)
    if op == 'arr':
        return t.a[0]
    if op == 'cat':
        r = I(0)
        for s in t.a:
            r = add(r, length(s))
        return r
    if op == 'ite':
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    if op == 'case':
        return case(t.a[0], {v: (length(x) if x is not NOTHING else x) for v, x in t.a[1]})
    if op == 'upd':
        return length(t.a[0])
    if op == 'flat':
        a = t.a[0]
        if a.op == 'arr':
            v, b = open_c(a)
            return isum(a.a[0], v, length(b))
        return mk('len', t)
    if op == 'dot':
        A, B, ra, rb = t.a
        if ra >= 2:
            return length(A)
        if rb >= 2:
            return dim(B, 1)
        return mk('len', t)
    if op == 'scat':
        return length(t.a[3])
    if op == 'colupd':
        return length(t.a[0])
    if op == 'str':
        return I(len(t.a[0]))
    if op in ('sorted', 'rev', 'perm'):
        return length(t.a[0])
    if op == 'at':
        b = t.a[0]
        if b in ROWLEN:
            return ROWLEN[b]
        k = 1
        while b.op == 'at':
            b = b.a[0]
            k += 1
        ty = TY.get(b, '')
        r = ndrank(ty)
        if r and k < r:
            return mk('dim', b, k)
    if op == 'deser':
        for f in LENHOOK:
            r = f(t)
            if r is not None:
                return r
    if op == 'slice' and t.a[2] is not INF:
        return sub(t.a[2], t.a[1])
    if op == 'lagr':
        return length(t.a[1])
    if op == 'msgs':
        return t.a[1]
    if op == 'bytesof':
        return t.a[1]
    r = ARRLEN.get(t)
    if r is not None:
        return r
    if op == 'field':
        for f in FIELDLEN:
            r = f(t)
            if r is not None:
                return r
    return mk('len', t)


FIELDLEN = []


ARRLEN = {}


def dim(t, k):
    if k == 0:
        return length(t)
    op = t.op
    if op == 'arr':
        if t.a[0] is I(0):
            return mk('dim', t, k)
        v, b = open_c(t)
        r = dim(b, k - 1)
        return r
    if op == 'cat':
        return dim(t.a[0], k)
    if op == 'flat':
        a = t.a[0]
        if a.op == 'arr':
            v, b = open_c(a)
            return dim(b, k)
    if op == 'ite':
        return ite(t.a[0], dim(t.a[1], k), dim(t.a[2], k))
    if op == 'case':
        return case(t.a[0], {v: (dim(x, k) if x is not NOTHING else x) for v, x in t.a[1]})
    if op == 'upd':
        return dim(t.a[0], k)
    if op == 'dot':
        A, B, ra, rb = t.a
        if ra >= 2 and rb >= 2:
            return dim(B, 1)
    if op == 'lagr':
        return length(t.a[0])
    if op == 'at':
        b = t.a[0]
        kk = 1
        while b.op == 'at':
            b = b.a[0]
            kk += 1
        if ndrank(TY.get(b, '')):
            return mk('dim', b, k + kk)
    return mk('dim', t, k)


def ndrank(ty):
    """Rank of an ndarray type string, 0 when not an array."""
    if 'ArrayBase<' not in ty.split('(')[0] and not ty.lstrip('&').startswith('ndarray::ArrayBase'):
        return 0
    i = ty.rfind('ndarray::Dim<[usize; ')
    if i < 0:
        return 0
    j = ty.find(']', i)
    try:
        return int(ty[i + len('ndarray::Dim<[usize; '):j])
    except ValueError:
        return 0


_at = {}


def at(s, i):
    k = (s, i)
    r = _at.get(k)
    if r is None:
        r = at_(s, i)
        if r.op != 'at':
            _at[k] = r
    return r


def at_(s, i):
    op = s.op
    if i.op == 'mget' and i.a[0].op == 'map':
        # position found in a table of the sequence's own elements
        e = i.a[0].a[0]
        if e.op == 'arr' and e.a[2].op == 'tup' and e.a[2].a[1].op == 'bv' and e.a[2].a[1].a[0] == e.a[1] \
                and e.a[2].a[0] is mk('at', s, e.a[2].a[1]):
            return i.a[1]
    if op == 'arr':
        return inst(s, i)
    if op == 'ite':
        return ite(s.a[0], at(s.a[1], i), at(s.a[2], i))
    if op == 'case':
        return case(s.a[0], {v: (at(x, i) if x is not NOTHING else x) for v, x in s.a[1]})
    if op == 'cat':
        off = I(0)
        rest = list(s.a)
        while rest:
            seg = rest[0]
            n = length(seg)
            rel = sub(i, off)
            if n is INF or nonneg(sub(sub(n, rel), I(1))):
                if nonneg(rel) or len(rest) == len(s.a):
                    return at(seg, rel)
                break
            if nonneg(sub(rel, n)):
                off = add(off, n)
                rest = rest[1:]
                continue
            break
        if not rest:
            return mk('at', s, i)
        if len(rest) < len(s.a):
            if len(rest) == 1:
                return at(rest[0], sub(i, off))
            return mk('at', cat(*rest), sub(i, off))
        return mk('at', s, i)
    if op == 'upd':
        a, j, v = s.a
        e = eq0(sub(i, j))
        return ite(e, v, at(a, i))
    if op == 'flat':
        r = _at_flat(s, i)
        if r is not None:
            return r
    if op == 'dot':
        A, B, ra, rb = s.a
        if ra >= 2:
            return dot(at(A, i), B, ra - 1, rb)
    if op == 'rev':
        return at(s.a[0], sub(sub(length(s.a[0]), I(1)), i))
    if op == 'slice':
        return at(s.a[0], add(s.a[1], i))
    if op == 'at' and s.a[0].op == 'colupd':
        m, j, x = s.a[0].a
        if i is j:
            return at(x, s.a[1])
        d = sub(i, j)
        if nonneg(sub(d, I(1))) or nonneg(sub(I(-1), d)):
            return at(at(m, s.a[1]), i)
    if op == 'scat':
        n, h, body, base = s.a
        # pairs (index, value); an index equal to the loop variable is resolved by the caller
    return mk('at', s, i)


def _at_flat(s, i):
    a = s.a[0]
    if a.op != 'arr':
        return None
    n = a.a[0]
    v, b = open_c(a)
    m = length(b)
    if v not in m.fv:
        q = fdiv(i, m)
        r = fmod(i, m)
        if not any(x.op in ('div', 'mod') for x in subterms(q) | subterms(r) if x not in subterms(i)):
            return at(replace(b, {v: q}), r)
        return None
    # variable-length pieces: index = (sum of earlier lengths) + k
    for mm, c in poly(i).items():
        if c == 1 and len(mm) == 1 and mm[0].op == 'psum':
            pass
    d = poly(i)
    # look for g such that sum_{j<g} m(j) is contained in i
    cands = set()
    for x in subterms(i):
        if x.op in ('tv', 'param'):
            cands.add(x)
    for g in cands:
        pre = isum(g, v, m)
        k = sub(i, pre)
        if g in k.fv:
            continue
        inner = replace(b, {v: g})
        ml = length(inner)
        if nonneg(k):
            ok = False
            if nonneg(sub(sub(ml, k), I(1))):
                ok = True
            elif ml.op == 'case':
                # k in range for the live variants; others cannot be reached by the caller
                ok = True
            if ok:
                return at(inner, k)
    return None


def colupd(m, j, x):
    """Matrix m with column j replaced."""
    if m.op == 'colupd' and m.a[1] is j:
        m = m.a[0]
    return mk('colupd', m, j, x)


def seqslice(s, lo, hi):
    """s[lo..hi]"""
    if lo is I(0) and hi is length(s):
        return s
    n = sub(hi, lo) if hi is not INF else INF
    if n is I(0):
        return EMPTY
    if s.op == 'ite':
        return ite(s.a[0], seqslice(s.a[1], lo, hi), seqslice(s.a[2], lo, hi))
    if s.op == 'cat':
        # cut along segment boundaries when they can be ordered
        out = []
        off = I(0)
        segs = list(s.a)
        ok = True
        for seg in segs:
            ln = length(seg)
            end = INF if ln is INF else add(off, ln)
            # intersection of [lo,hi) with [off,end)
            if end is not INF and nonneg(sub(lo, end)):
                off = end
                continue
            if hi is not INF and nonneg(sub(off, hi)):
                break
            if nonneg(sub(off, lo)):
                l0 = I(0)
            elif nonneg(sub(lo, off)):
                l0 = sub(lo, off)
            else:
                ok = False
                break
            if hi is INF:
                if end is INF:
                    h0 = INF
                else:
                    h0 = ln
            elif end is INF or nonneg(sub(end, hi)):
                h0 = sub(hi, off)
            elif nonneg(sub(hi, end)):
                h0 = ln
            else:
                ok = False
                break
            out.append(seqslice(seg, l0, h0))
            if end is INF:
                break
            off = end
        if ok:
            return cat(*out)
        return mk('slice', s, lo, hi)
    if s.op == 'slice':
        return seqslice(s.a[0], add(s.a[1], lo), add(s.a[1], hi))
    v = fresh(n)
    return arr(n, v, at(s, add(lo, v)))


def isum(n, v, body):
    """sum_{v<n} body (integers)."""
    if v not in body.fv:
        return mul(n, body)
    if n.op == 'int' and 0 <= n.a[0] <= 4:
        r = I(0)
        for k in range(n.a[0]):
            r = add(r, replace(body, {v: I(k)}))
        return r
    r = I(0)
    for m, c in poly(body).items():
        ind = tuple(x for x in m if v not in x.fv)
        dep = tuple(x for x in m if v in x.fv)
        if not dep:
            r = add(r, mul(unpoly({m: c}), n))
        elif len(dep) == 1 and dep[0] is v:
            # c*ind*v -> c*ind*n(n-1)/2 ; keep symbolic
            r = add(r, mul(unpoly({ind: c}), mk('tri', n)))
        elif len(dep) == 1 and dep[0].op == 'case':
            e, alts = dep[0].a
            for w, x in alts:
                if x is NOTHING:
                    continue
                r = add(r, mul(unpoly({ind: c}), isum2(n, v, isv(e, w), x)))
        elif len(dep) == 1 and dep[0].op == 'ite':
            cc, x, y = dep[0].a
            r = add(r, mul(unpoly({ind: c}), isum2(n, v, cc, x)))
            r = add(r, mul(unpoly({ind: c}), isum2(n, v, bnot(cc), y)))
        else:
            r = add(r, mul(unpoly({ind: c}), binder('sum', n, v, unpoly({dep: 1}))))
    return r


def isum2(n, v, cond, val):
    """sum over v<n of (cond ? val : 0)."""
    if cond is TRUE:
        return isum(n, v, val)
    if cond is FALSE:
        return I(0)
    if v not in val.fv:
        return mul(val, count(n, v, cond))
    return binder('sum', n, v, mk('guard', cond, val))


def count(n, v, cond):
    if cond is TRUE:
        return n
    if cond is FALSE:
        return I(0)
    if v not in cond.fv:
        return ite(cond, n, I(0))
    if cond.op == 'not' or (cond.op == 'eq0' and cond.a[0].op != 'poly' and False):
        return sub(n, count(n, v, cond.a[0]))
    if cond.op == 'isv':
        vs = variants_of(cond.a[1])
        if vs and cond.a[1] == sorted(vs)[-1]:
            # the last variant is expressed through the others, so totals stay linear in n
            r = n
            for w in vs:
                if w != cond.a[1]:
                    r = sub(r, binder('cnt', n, v, isv(cond.a[0], w)))
            return r
    return binder('cnt', n, v, cond)


def flat(s):
    """Concatenation of a sequence of sequences."""
    if s is EMPTY:
        return EMPTY
    if s.op == 'arr':
        v, b = open_(s)
        if b.op == 'arr' and b.a[0] is I(1):
            return arr(s.a[0], v, inst(b, I(0)))
        if v not in b.fv and s.a[0] is I(1):
            return b
        if s.a[0] is I(1):
            return replace(b, {v: I(0)})
        if b is EMPTY:
            return EMPTY
    if s.op == 'cat':
        return cat(*[flat(x) for x in s.a])
    if s.op == 'ite':
        return ite(s.a[0], flat(s.a[1]), flat(s.a[2]))
    if s.op == 'case':
        return case(s.a[0], {w: flat(x) for w, x in s.a[1]})
    if s.op == 'flat' and s.a[0].op == 'arr':
        v, b = open_(s.a[0])
        return flat(arr(s.a[0].a[0], v, flat(b)))
    return mk('flat', s)


def reshape(s, shape, rank):
    """Row-major reshape of a rank-`rank` array to `shape` (list of terms)."""
    f = s
    for _ in range(rank - 1):
        f = flat_rect(f)
    return unflatten(f, shape)


def flat_rect(a):
    """Flatten the first two axes of a rectangular array."""
    return flat(a)


def unflatten(f, shape):
    if len(shape) == 1:
        # length is checked at run time by from_shape_vec, so it is the sequence itself
        return f
    n = shape[0]
    inner = I(1)
    for d in shape[1:]:
        inner = mul(inner, d)
    if n is I(1):
        return one(unflatten(f, shape[1:]))
    if f.op == 'flat' and f.a[0].op == 'arr':
        a = f.a[0]
        v, b = open_(a)
        m = length(b)
        if a.a[0] is n and (v in m.fv or m is inner or m.op in ('len', 'dim', 'at') or eq0(sub(m, inner)) is not FALSE and len(shape) == 2):
            return arr(n, v, unflatten(b, shape[1:]))
        if m is inner:
            return arr(a.a[0], v, unflatten(b, shape[1:]))
    if f.op == 'cat' and n.op == 'int':
        # k pieces of equal length
        try:
            pieces = [seqslice(f, mul(I(k), inner), mul(I(k + 1), inner)) for k in range(n.a[0])]
            if n.a[0] <= 8 and all(p.op != 'slice' for p in pieces):
                return lst(*[unflatten(p, shape[1:]) for p in pieces])
        except RecursionError:
            pass
    if f.op == 'cat':
        # rows appended one by one: each segment a whole number of rows
        parts = []
        for s in f.a:
            ln = length(s)
            q, r = _split(ln, inner)
            if r is not I(0):
                parts = None
                break
            parts.append((s, q))
        if parts:
            return cat(*[unflatten(s, [q] + list(shape[1:])) for s, q in parts])
    v = fresh(n)
    w = fresh(inner)
    row = arr(inner, w, at(f, add(mul(v, inner), w)))
    return arr(n, v, unflatten(row, shape[1:]))


def rank_of(t, ty=None):
    return ndrank(ty) if ty else 0


def dot(A, B, ra, rb):
    return mk('dot', A, B, ra, rb)


def transpose(t):
    """Swap the first two axes."""
    n = dim(t, 0)
    m = dim(t, 1)
    if t.op == 'transp':
        return t.a[0]
    if t.op in ('lagr', 'dot') or t.op in ('param', 'field', 'call'):
        return mk('transp', t)
    v = fresh(m)
    w = fresh(n)
    return arr(m, v, arr(n, w, at(at(t, w), v)))


# ---------------------------------------------------------------- traversal
_subs = {}


def subterms(t):
    r = _subs.get(t)
    if r is None:
        acc = {t}
        for c in _flat_children(t.a):
            acc |= subterms(c)
        r = frozenset(acc)
        _subs[t] = r
    return r


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def rebuild(op, a):
    """Re-apply smart constructors to an already substituted node (non-binder)."""
    if op == 'poly':
        r = I(0)
        for m, c in a[0]:
            x = I(c)
            for y in m:
                x = mul(x, y)
            r = add(r, x)
        return r
    if op == 'gf':
        r = GZERO
        for m in a[0]:
            x = GONE
            for y in m:
                x = gmul(x, y)
            r = gadd(r, x)
        return r
    f = SMART.get(op)
    if f is not None:
        return f(*a)
    return mk(op, *a)


def transform(t, f):
    """Bottom-up rebuild; f(x) may return a replacement for a subterm (checked first)."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = f(x)
        if r is None:
            if x.op in BINDERS:
                v, b = open_(x)
                b2 = go(b)
                n2 = go(x.a[0])
                ex = [goa(y) for y in x.a[3:]]
                if b2 is b and n2 is x.a[0] and all(p is q for p, q in zip(ex, x.a[3:])):
                    r = x
                else:
                    r = mkbinder(x.op, n2, v, b2, *ex)
            else:
                a2 = tuple(goa(y) for y in x.a)
                if all(p is q or p == q for p, q in zip(a2, x.a)):
                    r = x
                else:
                    r = rebuild(x.op, a2)
                    if x in TY and r not in TY:
                        TY[r] = TY[x]
        memo[x] = r
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y
    return go(t)


GBIND = {}


def mkbinder(op, n, v, b, *ex):
    if op == 'arr':
        return arr(n, v, b)
    if op == 'sum':
        return isum(n, v, b) if b.op != 'guard' else isum2(n, v, b.a[0], b.a[1])
    if op == 'cnt':
        return count(n, v, b)
    if op in GBIND:
        return GBIND[op](n, v, b)
    return binder(op, n, v, b, *ex)


_cv = {}


def _cvar(n, h, m):
    """The variable used while substituting under a binder: one per (bound, height) unless it would capture."""
    k = 0
    while True:
        v = _cv.get((n, h, k))
        if v is None:
            v = _cv[(n, h, k)] = fresh(n)
        if not any(v in x.fv for x in m.values()):
            return v
        k += 1


_rep = {}


def replace(t, m):
    if len(m) == 1:
        (k0, x0), = m.items()
        if k0 is x0:
            return t
        if k0 not in subterms(t):
            return t
        key = (t, k0, x0)
        r = _rep.get(key)
        if r is None:
            r = _rep[key] = _replace(t, m)
        return r
    return _replace(t, m)


def _replace(t, m):
    """Substitute terms (keys of m) in t, renormalising."""
    keys = set(m)
    memo = {}

    def has(x):
        return not keys.isdisjoint(subterms(x))

    def go(x):
        if x in m:
            return m[x]
        if not has(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in BINDERS:
            n2 = go(x.a[0])
            h = x.a[1]
            v = _cvar(n2, h, m)
            m2 = dict(m)
            m2[mk('bv', h)] = v
            b2 = replace(x.a[2], m2)
            r = mkbinder(x.op, n2, v, b2, *[goa(y) for y in x.a[3:]])
        else:
            r = rebuild(x.op, tuple(goa(y) for y in x.a))
            if x in TY and r not in TY:
                TY[r] = TY[x]
        memo[x] = r
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        return y
    return go(t)


SMART = {
    'div': fdiv, 'mod': fmod, 'min': imin, 'max': imax,
    'ge0': ge0, 'eq0': eq0, 'not': bnot, 'and': band, 'or': bor,
    'ite': ite, 'case': lambda e, d: case(e, dict(d)), 'isv': isv, 'vf': vfield,
    'field': field, 'at': at, 'len': length, 'dim': dim, 'cat': cat, 'flat': flat,
    'slice': seqslice, 'colupd': colupd, 'is_some': is_some, 'optval': opt_val, 'is_ok': is_ok, 'okval': ok_val,
    'gfint': gfint, 'gfval': gfval, 'ginv': ginv, 'opt': opt,
    'eq': lambda a, b: eqt(a, b), 'gfz': lambda s: gfeq(s, GZERO),
    'transp': transpose, 'setf': setfield, 'clog2': clog2,
}


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return repr(t) if not isinstance(t, str) else t
    if d > 40:
        return '…'
    op, a = t.op, t.a
    if op == 'int':
        return str(a[0])
    if op == 'poly':
        return '(' + ' + '.join(
            ('' if c == 1 and m else str(c)) + ('*' if c != 1 and m else '') + '*'.join(show(x, d + 1) for x in m)
            for m, c in a[0]) + ')'
    if op == 'gf':
        if not a[0]:
            return 'gf0'
        return '(' + ' ^ '.join('·'.join(show(x, d + 1) for x in m) or 'gf1' for m in a[0]) + ')'
    if op == 'param':
        return a[0]
    if op == 'tv':
        return 'v%d' % a[0]
    if op == 'bv':
        return 'b%d' % a[0]
    if op == 'bool':
        return str(a[0]).lower()
    if op == 'str':
        return repr(a[0])
    if op == 'field':
        return show(a[0], d + 1) + '.' + a[1]
    if op == 'at':
        return show(a[0], d + 1) + '[' + show(a[1], d + 1) + ']'
    if op == 'arr':
        return '[b%d<%s: %s]' % (a[1], show(a[0], d + 1), show(a[2], d + 1))
    if op in BINDERS:
        return '%s[b%d<%s: %s%s]' % (op, a[1], show(a[0], d + 1), show(a[2], d + 1),
                                     ''.join('; ' + show(x, d + 1) for x in a[3:]))
    if op == 'cat':
        return '(' + ' ++ '.join(show(x, d + 1) for x in a) + ')'
    if op == 'struct':
        return a[0].split('::')[-1] + '{' + ', '.join(n + ': ' + show(x, d + 1) for n, x in a[1]) + '}'
    if op == 'case':
        return 'case ' + show(a[0], d + 1) + ' {' + ', '.join(
            v.split('::')[-1] + '=>' + show(x, d + 1) for v, x in a[1]) + '}'
    if op == 'isv':
        return show(a[0], d + 1) + ' is ' + a[1].split('::')[-1]
    if op == 'vf':
        return show(a[0], d + 1) + '.' + a[1].split('::')[-1] + '.' + str(a[2])
    return op + '(' + ', '.join(show(x, d + 1) for x in a) + ')'
