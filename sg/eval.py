"""Valuation of terms, used to tell a real difference between two normal forms from one that the
normaliser merely failed to bridge.  A difference is reported only with a valuation of the inputs at
which the two terms take different values."""
import hashlib
import random
from terms import *


class Undef(Exception):
    """The term has no value at this valuation (index out of range, missing key, opaque)."""


class Unknown(Exception):
    """The term contains something the analysis did not understand."""


FATAL = {'index out of range', 'uninitialised memory', 'slice out of range', 'missing key', 'division by zero', 'inverse of zero',
         'value of none', 'negative length'}
CALLS = set()   # opaque workspace calls that specifications also use

W = 18
PRIM = 0x40081   # x^18 + x^7 + 1
MASK = (1 << W) - 1


_LOG = []
_EXP = []


def _tables():
    x = 1
    _LOG.extend([0] * (1 << W))
    for i in range((1 << W) - 1):
        _EXP.append(x)
        _LOG[x] = i
        x <<= 1
        if x >> W:
            x ^= PRIM
    _EXP.extend(_EXP)


def fmul(a, b):
    if a == 0 or b == 0:
        return 0
    if not _LOG:
        _tables()
    return _EXP[_LOG[a] + _LOG[b]]


def finv(a):
    if a == 0:
        raise Undef('inverse of zero')
    if not _LOG:
        _tables()
    return _EXP[(1 << W) - 1 - _LOG[a]]


def h(*k):
    return int.from_bytes(hashlib.md5(repr(k).encode()).digest()[:8], 'big')


class Opq:
    """Value of an uninterpreted term; equal keys are equal values."""
    __slots__ = ('key', 'ctx')

    def __init__(self, key, ctx):
        self.key = key
        self.ctx = ctx

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '?%s' % (str(self.key)[:40],)


class InfSeq:
    def __init__(self, f):
        self.f = f


class Env:
    def __init__(self, params=None, seed=0, lens=None, opq=None):
        self.params = params or {}
        self.seed = seed
        self.lens = lens or (lambda k: None)
        self.opq = opq or {}
        self.memo = {}
        self.wmemo = {}
        self.pub = None        # values shared with valuations that differ only in secret parameters
        self.draws = None      # (boolean draws, field draws, probe) when distributions are computed
        self.lists = set()
        self.maxlen = 5000
        self.salt = None       # changes what must not matter: random draws, hash order, received data

    def aslist(self, v):
        return v.key in self.lists

    def rnd(self, *key):
        return h(self.seed, key)


def canon(v):
    """Hashable canonical form of a value, used in keys."""
    if isinstance(v, list):
        return ('L',) + tuple(canon(x) for x in v)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('D',) + tuple(sorted(((repr(canon(k)), canon(x)) for k, x in v.items())))
    if isinstance(v, Opq):
        return ('O', v.key)
    return v


def salted(k):
    """Forced value of an uninterpreted secret: salts 'zero' and 'one' make all secrets 0 or 1."""
    if type(k) is tuple:
        if len(k) > 1 and k[0] == 'salted':
            return {'zero': 0, 'one': 1}.get(k[1])
        for x in k:
            if type(x) is tuple:
                r = salted(x)
                if r is not None:
                    return r
    return None


def as_int(v, env):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Opq):
        s = salted(v.key) if env.salt is not None else None
        return env.rnd('int', v.key) & MASK if s is None else s
    raise Undef('not an integer: %r' % (v,))


def as_list(v, env):
    if isinstance(v, list):
        return v
    if isinstance(v, Opq):
        n = env.lens(v.key)
        if n is None:
            n = 2 + env.rnd('len', v.key) % 3
        return [Opq(('at', v.key, i), env) for i in range(n)]
    if isinstance(v, str):
        return list(v.encode())
    raise Undef('not a sequence: %r' % (v,))


def evalt(t, env, loc=None):
    return _ev(t, env, loc or {})


def _lookup(entries, k):
    """Last matching entry of a map built by successive entries."""
    found = None
    for e in entries:
        if e[0] == 'ins' and canon(e[1]) == canon(k):
            found = e[2]
        elif e[0] == 'del' and canon(e[1]) == canon(k):
            found = None
        elif e[0] == 'ori' and canon(e[1]) == canon(k):
            found = e[2] if found is None else found
        elif e[0] == 'acc' and canon(e[1]) == canon(k):
            found = (e[2] if found is None else found) + e[3]
    return found


def _ev(t, env, loc):
    if t.op in CHEAP:
        return _ev1(t, env, loc)
    f = locvars(t)
    if not f:
        key = t
    else:
        vals = [loc.get(k) for k in f]
        for v in vals:
            if type(v) is not int:
                return _ev1(t, env, loc)
        key = (t, *vals)
    memo = env.memo
    if env.pub is not None and not env.secret(t):
        memo = env.pub
    r = memo.get(key)
    if r is None:
        r = (_ev1(t, env, loc),)
        memo[key] = r
    return r[0]


CHEAP = {'bv', 'cv', 'int', 'str', 'bool'}
_ld = {}


def locvars(t):
    """Bound variables the value of the term depends on."""
    r = _ld.get(t)
    if r is None:
        if t.op == 'bv':
            s = {t.a[0]}
        elif t.op == 'cv':
            s = {('cv', t.a[0], t.a[1])}
        else:
            s = set()
            for x in t.a:
                _lv(x, s)
            if t.op in BINDERS:
                s.discard(t.a[1])
                if t.op in ('fix', 'wst', 'wfin'):
                    s = {k for k in s if not (isinstance(k, tuple) and k[1] == t.a[5])}
        r = _ld[t] = tuple(s)
    return r


def _lv(x, s):
    if isinstance(x, T):
        s.update(locvars(x))
    elif isinstance(x, tuple):
        for y in x:
            _lv(y, s)


def loc_dep(t):
    """Does the value depend on bound variables?"""
    return bool(locvars(t))


def _seq(t, env, loc):
    return as_list(_ev(t, env, loc), env)


def _int(t, env, loc):
    return as_int(_ev(t, env, loc), env)


def _bool(t, env, loc):
    v = _ev(t, env, loc)
    if isinstance(v, bool):
        return v
    if isinstance(v, Opq):
        return bool(env.rnd('bool', v.key) & 1)
    if isinstance(v, int):
        return bool(v)
    raise Undef('not a boolean')


def _count(t, env, loc):
    n = t.a[0]
    if n is INF:
        raise Undef('infinite')
    return _int(n, env, loc)


def _ev1(t, env, loc):
    op, a = t.op, t.a
    f = OPS.get(op)
    if f is not None:
        return f(t, a, env, loc)
    # uninterpreted
    vals = []
    for x in a:
        if isinstance(x, T):
            vals.append(canon(_ev(x, env, loc)))
        elif isinstance(x, tuple):
            vals.append(tuple(canon(_ev(y, env, loc)) if isinstance(y, T) else y for y in x))
        else:
            vals.append(x)
    if op in env.opq:
        return env.opq[op](env, *vals)
    if env.salt is not None and op in SALTED:
        return Opq(('salted', env.salt, op) + tuple(vals), env)
    return Opq((op,) + tuple(vals), env)


# uninterpreted terms that stand for secrets or received data
SALTED = set()


def o_param(t, a, env, loc):
    if a[0] in env.params:
        return env.params[a[0]]
    if env.salt is not None and a[0] in SALTED:
        return Opq(('salted', env.salt, 'param', a[0]), env)
    return Opq(('param', a[0]), env)


def o_poly(t, a, env, loc):
    s = 0
    for m, c in a[0]:
        p = c
        for x in m:
            p *= _int(x, env, loc)
        s += p
    return s


def o_gf(t, a, env, loc):
    s = 0
    for m in a[0]:
        p = 1
        for x in m:
            p = fmul(p, _int(x, env, loc) & MASK)
        s ^= p
    return s


def o_div(t, a, env, loc):
    x, y = _int(a[0], env, loc), _int(a[1], env, loc)
    if y == 0:
        raise Undef('division by zero')
    return x // y


def o_mod(t, a, env, loc):
    x, y = _int(a[0], env, loc), _int(a[1], env, loc)
    if y == 0:
        raise Undef('division by zero')
    return x % y


def o_case(t, a, env, loc):
    e = _ev(a[0], env, loc)
    if isinstance(e, tuple) and e and e[0] == 'C':
        for v, x in a[1]:
            if v == e[1]:
                return _ev(x, env, loc)
        raise Undef('no such variant')
    if isinstance(e, Opq):
        vs = a[1]
        return _ev(vs[env.rnd('variant', e.key) % len(vs)][1], env, loc)
    raise Undef('case of %r' % (e,))


def o_isv(t, a, env, loc):
    e = _ev(a[0], env, loc)
    if isinstance(e, tuple) and e and e[0] == 'C':
        return e[1] == a[1]
    if isinstance(e, Opq):
        vs = sorted(variants_of(a[1]) or [a[1]])
        return vs[env.rnd('variant', e.key) % len(vs)] == a[1]
    raise Undef('isv')


def o_vf(t, a, env, loc):
    e = _ev(a[0], env, loc)
    if isinstance(e, tuple) and e and e[0] == 'C':
        if e[1] != a[1]:
            raise Undef('wrong variant')
        return e[2 + a[2]]
    if isinstance(e, Opq):
        return Opq(('vf', e.key, a[1], a[2]), env)
    raise Undef('vf')


def o_field(t, a, env, loc):
    e = _ev(a[0], env, loc)
    return getf(e, a[1], env)


def getf(e, n, env):
    if isinstance(e, tuple) and e and e[0] == 'S':
        return dict(e[2])[n]
    if isinstance(e, tuple) and n.isdigit():
        if e and e[0] == 'C':
            return e[2 + int(n)]
        return e[int(n)]
    if isinstance(e, Opq):
        return Opq(('field', e.key, n), env)
    raise Undef('field %s of %r' % (n, e))


def o_setf(t, a, env, loc):
    e = _ev(a[0], env, loc)
    v = _ev(a[2], env, loc)
    if isinstance(e, tuple) and e and e[0] == 'S':
        return ('S', e[1], tuple((k, v if k == a[1] else x) for k, x in e[2]))
    if isinstance(e, tuple) and a[1].isdigit() and int(a[1]) < len(e):
        return e[:int(a[1])] + (v,) + e[int(a[1]) + 1:]
    return Opq(('setf', canon(e), a[1], canon(v)), env)


def o_arr(t, a, env, loc):
    n, hh, body = a[:3]
    if n is INF:
        return InfSeq(lambda i: _ev(body, env, {**loc, hh: i}))
    k = _int(n, env, loc)
    if k > env.maxlen:
        raise Undef('too long')
    if k < 0:
        raise Undef('negative length')
    if not loc_dep(body):
        if k == 0:
            return []
        v = _ev(body, env, loc)
        return [v] * k
    return [_ev(body, env, {**loc, hh: i}) for i in range(k)]


def o_at(t, a, env, loc):
    i = _int(a[1], env, loc)
    s = a[0]
    if s.op == 'arr':
        n = s.a[0]
        k = None if n is INF else _int(n, env, loc)
        if i < 0 or (k is not None and i >= k):
            raise Undef('index out of range')
        return _ev(s.a[2], env, {**loc, s.a[1]: i})
    v = _ev(s, env, loc)
    if isinstance(v, InfSeq):
        return v.f(i)
    if isinstance(v, Opq):
        return Opq(('at', v.key, i), env)
    v = as_list(v, env)
    if not 0 <= i < len(v):
        raise Undef('index out of range')
    return v[i]


def o_len(t, a, env, loc):
    v = _ev(a[0], env, loc)
    if isinstance(v, Opq):
        n = env.lens(v.key)
        if n is not None:
            return n
    return len(as_list(v, env))


def o_dim(t, a, env, loc):
    v = _ev(a[0], env, loc)
    if isinstance(v, Opq):
        n = env.lens(('dim', v.key, a[1]))
        if n is not None:
            return n
    for _ in range(a[1]):
        v = as_list(v, env)
        if not v:
            raise Undef('dimension of an empty array')
        v = v[0]
    return len(as_list(v, env))


def o_cat(t, a, env, loc):
    r = []
    for x in a:
        v = _ev(x, env, loc)
        if isinstance(v, InfSeq):
            head = r
            return InfSeq(lambda i, head=head, v=v: head[i] if i < len(head) else v.f(i - len(head)))
        r = r + as_list(v, env)
    return r


def o_flat(t, a, env, loc):
    r = []
    for x in _seq(a[0], env, loc):
        r = r + as_list(x, env)
    return r


def o_slice(t, a, env, loc):
    v = _ev(a[0], env, loc)
    lo = _int(a[1], env, loc)
    if isinstance(v, InfSeq):
        if a[2] is INF:
            return InfSeq(lambda i: v.f(lo + i))
        hi = _int(a[2], env, loc)
        return [v.f(i) for i in range(lo, hi)]
    s = as_list(v, env)
    hi = len(s) if a[2] is INF else _int(a[2], env, loc)
    if not 0 <= lo <= hi <= len(s):
        raise Undef('slice out of range')
    return s[lo:hi]


def o_upd(t, a, env, loc):
    s = list(_seq(a[0], env, loc))
    i = _int(a[1], env, loc)
    if not 0 <= i < len(s):
        raise Undef('index out of range')
    s[i] = _ev(a[2], env, loc)
    return s


def o_scat(t, a, env, loc):
    n, hh, body, base = a
    s = list(_seq(base, env, loc))
    for k in range(_int(n, env, loc)):
        l2 = {**loc, hh: k}
        g, i, x = body.a
        if _bool(g, env, l2):
            j = _int(i, env, l2)
            if not 0 <= j < len(s):
                raise Undef('index out of range')
            s[j] = _ev(x, env, l2)
    return s


def o_fix(t, a, env, loc):
    n, hb, body, inits, k, ch = a
    vals = [_ev(x, env, loc) for x in inits.a]
    for i in range(_int(n, env, loc)):
        l2 = dict(loc)
        l2[hb] = i
        for j, v in enumerate(vals):
            l2[('cv', ch, j)] = v
        vals = [_ev(x, env, l2) for x in body.a]
    return vals[k.a[0]]


WLIM = 900


def wrun(t, a, env, loc, upto=None):
    """States before each iteration of an unbounded loop, and how it ends."""
    _, hb, body, inits, _, ch = a
    lv = locvars(mk('wfin', INF, hb, body, inits, I(0), ch))
    key = ('wrun', body, inits, ch, tuple(canon(loc[x]) for x in sorted(lv, key=repr) if x in loc))
    r = env.wmemo.get(key)
    if r is None:
        r = env.wmemo[key] = [[[_ev(x, env, loc) for x in inits.a]], None]
    states, end = r
    while r[1] is None and (upto is None or len(states) <= upto):
        i = len(states) - 1
        if i > WLIM:
            raise Undef('long loop')
        l2 = dict(loc)
        l2[hb] = i
        for j, v in enumerate(states[-1]):
            l2[('cv', ch, j)] = v
        for k, row in enumerate(body.a[1:]):
            if _bool(row.a[0], env, l2):
                r[1] = (i + 1, k, row.a[1], l2, row.a[2:])
                break
        else:
            states.append([_ev(x, env, l2) for x in body.a[0].a])
    return r


def o_wst(t, a, env, loc):
    i = _int(a[0], env, loc)
    r = wrun(t, a, env, loc, i)
    if i >= len(r[0]):
        raise Undef('no such iteration')
    return r[0][i][a[4].a[0]]


def o_wfin(t, a, env, loc):
    states, end = wrun(t, a, env, loc)
    n, k, val, l2, row = end
    j = a[4].a[0]
    m = len(a[3].a)
    if j == m:
        return n
    if j == m + 1:
        return k
    if j == m + 2:
        return _ev(val, env, l2)
    return _ev(row[j], env, l2)


def o_cv(t, a, env, loc):
    return loc[('cv', a[0], a[1])]


def o_bv(t, a, env, loc):
    if a[0] not in loc:
        raise Undef('unbound')
    return loc[a[0]]


def o_posn(t, a, env, loc):
    for i in range(_count(t, env, loc)):
        if _bool(a[2], env, {**loc, a[1]: i}):
            return i
    raise Undef('no position')


def o_forall(t, a, env, loc):
    return all(_bool(a[2], env, {**loc, a[1]: i}) for i in range(_count(t, env, loc)))


def o_exists(t, a, env, loc):
    return any(_bool(a[2], env, {**loc, a[1]: i}) for i in range(_count(t, env, loc)))


def o_sum(t, a, env, loc):
    s = 0
    for i in range(_count(t, env, loc)):
        l2 = {**loc, a[1]: i}
        b = a[2]
        if b.op == 'guard':
            if _bool(b.a[0], env, l2):
                s += _int(b.a[1], env, l2)
        else:
            s += _int(b, env, l2)
    return s


def o_guard(t, a, env, loc):
    return _int(a[1], env, loc) if _bool(a[0], env, loc) else 0


def o_cnt(t, a, env, loc):
    return sum(1 for i in range(_count(t, env, loc)) if _bool(a[2], env, {**loc, a[1]: i}))


def o_gfsum(t, a, env, loc):
    s = 0
    for i in range(_count(t, env, loc)):
        s ^= _int(a[2], env, {**loc, a[1]: i})
    return s


def o_gfprod(t, a, env, loc):
    p = 1
    for i in range(_count(t, env, loc)):
        p = fmul(p, _int(a[2], env, {**loc, a[1]: i}))
    return p


def o_opt(t, a, env, loc):
    return ('some', _ev(a[1], env, loc)) if _bool(a[0], env, loc) else ('none',)


def o_is_some(t, a, env, loc):
    v = _ev(a[0], env, loc)
    if isinstance(v, tuple) and v and v[0] in ('some', 'none'):
        return v[0] == 'some'
    return Opq(('is_some', canon(v)), env)


def o_optval(t, a, env, loc):
    v = _ev(a[0], env, loc)
    if isinstance(v, tuple) and v and v[0] == 'some':
        return v[1]
    if isinstance(v, Opq):
        return Opq(('optval', v.key), env)
    raise Undef('value of none')


def o_res(t, a, env, loc):
    return ('ok', _ev(a[1], env, loc)) if _bool(a[0], env, loc) else ('err', _ev(a[2], env, loc))


def o_eq(t, a, env, loc):
    return canon(_ev(a[0], env, loc)) == canon(_ev(a[1], env, loc))


def o_struct(t, a, env, loc):
    return ('S', a[0], tuple((k, _ev(x, env, loc)) for k, x in a[1]))


def o_rand(t, a, env, loc):
    seed = ''
    r = a[1]
    if r.op == 'rng' and r.a[0] in ('seed', 'seed64'):
        seed = canon(_ev(r.a[1], env, loc))
    key = (a[0], a[2], seed) + tuple(_int(x, env, loc) for x in a[3:])
    if env.draws is not None:
        bools, gfs, probe = env.draws
        d = bools if a[0] == 'bool' else gfs
        if probe is not None:
            probe[0 if a[0] == 'bool' else 1][key] = True
        v = d.get(key, 0)
        return bool(v) if a[0] == 'bool' else v
    v = env.rnd('rand', key, env.salt) if env.salt else env.rnd('rand', key)
    if env.salt in ('zero', 'one'):
        v = int(env.salt == 'one')
    if a[0] == 'bool':
        return bool(v & 1)
    return v & MASK


def o_ser(t, a, env, loc):
    return ('ser', _ev(a[0], env, loc))


def o_deser(t, a, env, loc):
    v = _ev(a[0], env, loc)
    if isinstance(v, tuple) and v and v[0] == 'ser':
        return v[1]
    if 'deser' in env.opq:
        return env.opq['deser'](env, canon(v))
    return Opq(('deser', canon(v)), env)


def o_unknown(t, a, env, loc):
    raise Unknown(str(t)[:120])


def o_call(t, a, env, loc):
    if a[0] not in CALLS:
        raise Unknown('call of %s' % a[0])
    return Opq(('call', a[0]) + tuple(canon(_ev(x, env, loc)) if isinstance(x, T) else x for x in a[1:]), env)


def o_map(t, a, env, loc):
    out = []
    e = a[0]
    segs = e.a if e.op == 'cat' else (e,)

    def entry(x, l2):
        if x.op == 'tup':
            out.append(('ins', _ev(x.a[0], env, l2), _ev(x.a[1], env, l2)))
        elif x.op == 'del':
            out.append(('del', _ev(x.a[0], env, l2)))
        elif x.op == 'acc':
            out.append(('acc', _ev(x.a[0], env, l2), _int(x.a[1], env, l2), _int(x.a[2], env, l2)))
        elif x.op == 'ori':
            out.append(('ori', _ev(x.a[0], env, l2), _ev(x.a[1], env, l2)))
        elif x.op == 'base':
            m = _ev(x.a[0], env, l2)
            if not (isinstance(m, tuple) and m and m[0] == 'M'):
                raise Undef('map base')
            out.extend(m[1])
        elif x.op == 'ite':
            entry(x.a[1] if _bool(x.a[0], env, l2) else x.a[2], l2)
        elif x.op == 'at':
            v = _ev(x, env, l2)
            if isinstance(v, tuple) and len(v) == 2:
                out.append(('ins', v[0], v[1]))
            else:
                raise Undef('map entry')
        else:
            raise Undef('map entry %s' % x.op)

    def seg(s, l2):
        if s.op == 'arr':
            n = _int(s.a[0], env, l2)
            for i in range(n):
                entry(s.a[2], {**l2, s.a[1]: i})
        elif s.op == 'flat' and s.a[0].op == 'arr':
            q = s.a[0]
            for i in range(_int(q.a[0], env, l2)):
                l3 = {**l2, q.a[1]: i}
                b = q.a[2]
                for z in (b.a if b.op == 'cat' else (b,)):
                    seg(z, l3)
        elif s.op == 'ite':
            x = s.a[1] if _bool(s.a[0], env, l2) else s.a[2]
            for z in (x.a if x.op == 'cat' else (x,)):
                seg(z, l2)
        elif s.op == 'case':
            v = _ev(s.a[0], env, l2)
            for w, x in s.a[1]:
                if isinstance(v, tuple) and v[0] == 'C' and v[1] == w:
                    for z in (x.a if x.op == 'cat' else (x,)):
                        seg(z, l2)
        else:
            for v in _seq(s, env, l2):
                if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0][:1] == '@':
                    out.append((v[0][1:],) + v[1:])
                elif isinstance(v, tuple) and len(v) == 2:
                    out.append(('ins',) + v)
                else:
                    raise Undef('map segment %s' % s.op)
    for s in segs:
        seg(s, loc)
    return ('M', tuple(out))


def _mkeys(m):
    out = {}
    for e in m[1]:
        out[canon(e[1])] = e[1]
    return [k for k in out.values() if _lookup(m[1], k) is not None]


def _par(a, env, loc, short):
    """Conjunction (short = False) or disjunction; the order of the parts is not kept in normal forms."""
    bad = None
    for x in a:
        try:
            if _bool(x, env, loc) == short:
                return short
        except Undef as e:
            bad = bad or e
    if bad:
        raise bad
    return not short


def o_maplen(t, a, env, loc):
    m = _ev(a[0], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        return len(_mkeys(m))
    return Opq(('maplen', canon(m)), env)


def o_mapentries(t, a, env, loc):
    m = _ev(a[0], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        # in no particular order
        ks = sorted(_mkeys(m), key=lambda k: env.rnd('order', env.salt, canon(k)) if env.salt else env.rnd('order', canon(k)))
        return [(k, _lookup(m[1], k)) for k in ks]
    return Opq(('mapentries', canon(m)), env)


def o_mapsorted(t, a, env, loc):
    m = _ev(a[0], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        try:
            return [(k, _lookup(m[1], k)) for k in sorted(_mkeys(m))]
        except TypeError:
            raise Unknown('order of keys')
    raise Unknown('order of keys')


def o_mget(t, a, env, loc):
    m = _ev(a[0], env, loc)
    k = _ev(a[1], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        r = _lookup(m[1], k)
        if r is None:
            raise Undef('missing key')
        return r
    return Opq(('mget', canon(m), canon(k)), env)


def o_mhas(t, a, env, loc):
    m = _ev(a[0], env, loc)
    k = _ev(a[1], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        return _lookup(m[1], k) is not None
    return Opq(('mhas', canon(m), canon(k)), env)


def o_mgetor(t, a, env, loc):
    m = _ev(a[0], env, loc)
    k = _ev(a[1], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        r = _lookup(m[1], k)
        return _ev(a[2], env, loc) if r is None else r
    return Opq(('mgetor', canon(m), canon(k)), env)


def o_sorted(t, a, env, loc):
    return sorted(as_int(x, env) for x in _seq(a[0], env, loc))


def o_uniq(t, a, env, loc):
    return sorted(set(as_int(x, env) for x in _seq(a[0], env, loc)))


def o_colupd(t, a, env, loc):
    m = [list(as_list(r, env)) for r in _seq(a[0], env, loc)]
    j = _int(a[1], env, loc)
    c = _seq(a[2], env, loc)
    for r, x in zip(m, c):
        r[j] = x
    return m


def o_bytesof(t, a, env, loc):
    v = _int(a[0], env, loc)
    k = a[1].a[0]
    b = [(v >> (8 * i)) & 255 for i in range(k)]
    if a[2] == 'be':
        b.reverse()
    return b


def o_frombytes(t, a, env, loc):
    b = [as_int(x, env) for x in _seq(a[1], env, loc)]
    if a[0] == 'be':
        b = b[::-1]
    return sum(x << (8 * i) for i, x in enumerate(b))


def _lg(n):
    return max(0, (n - 1).bit_length())


def _tok(x, env, loc):
    v = _ev(x, env, loc)
    if not isinstance(v, str):
        raise Unknown('token')
    return v


def o_isnum(a, env, loc):
    v = _tok(a[0], env, loc)
    k = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(a[1].a[0], 31)
    return v.isdigit() and int(v) < 1 << k


def o_numval(a, env, loc):
    v = _tok(a[0], env, loc)
    if not v.isdigit():
        raise Undef('not a number')
    return int(v)


OPS = {
    'int': lambda t, a, e, l: a[0],
    'bool': lambda t, a, e, l: a[0],
    'str': lambda t, a, e, l: a[0],
    'nothing': lambda t, a, e, l: ('nothing',),
    'param': o_param, 'poly': o_poly, 'gf': o_gf, 'div': o_div, 'mod': o_mod,
    'min': lambda t, a, e, l: min(_int(a[0], e, l), _int(a[1], e, l)),
    'max': lambda t, a, e, l: max(_int(a[0], e, l), _int(a[1], e, l)),
    'pow2': lambda t, a, e, l: 1 << _int(a[0], e, l),
    'npow2': lambda t, a, e, l: 1 << _lg(_int(a[0], e, l)),
    'clog2': lambda t, a, e, l: _lg(_int(a[0], e, l)),
    'ilog2': lambda t, a, e, l: _int(a[0], e, l).bit_length() - 1,
    'pow': lambda t, a, e, l: _int(a[0], e, l) ** _int(a[1], e, l),
    'tri': lambda t, a, e, l: (lambda n: n * (n - 1) // 2)(_int(a[0], e, l)),
    'ge0': lambda t, a, e, l: _int(a[0], e, l) >= 0,
    'eq0': lambda t, a, e, l: _int(a[0], e, l) == 0,
    'not': lambda t, a, e, l: not _bool(a[0], e, l),
    'and': lambda t, a, e, l: _par(a, e, l, False),
    'or': lambda t, a, e, l: _par(a, e, l, True),
    'ite': lambda t, a, e, l: _ev(a[1], e, l) if _bool(a[0], e, l) else _ev(a[2], e, l),
    'case': o_case, 'isv': o_isv, 'vf': o_vf, 'field': o_field, 'setf': o_setf,
    'arr': o_arr, 'at': o_at, 'len': o_len, 'dim': o_dim, 'cat': o_cat, 'flat': o_flat, 'slice': o_slice,
    'upd': o_upd, 'scat': o_scat, 'fix': o_fix, 'wst': o_wst, 'wfin': o_wfin, 'cv': o_cv, 'bv': o_bv, 'posn': o_posn,
    'forall': o_forall, 'exists': o_exists, 'sum': o_sum, 'cnt': o_cnt, 'guard': o_guard,
    'gfsum': o_gfsum, 'gfprod': o_gfprod,
    'ginv': lambda t, a, e, l: finv(_int(a[0], e, l)),
    'gfint': lambda t, a, e, l: _int(a[0], e, l),
    'gfval': lambda t, a, e, l: _int(a[0], e, l),
    'gfz': lambda t, a, e, l: _int(a[0], e, l) == 0,
    'opt': o_opt, 'is_some': o_is_some, 'optval': o_optval, 'res': o_res,
    'eq': o_eq, 'struct': o_struct,
    'tup': lambda t, a, e, l: tuple(_ev(x, e, l) for x in a),
    'ctor': lambda t, a, e, l: ('C', a[0]) + tuple(_ev(x, e, l) for x in a[1:]),
    'unk': o_unknown, 'lv': o_unknown, 'call': o_call,
    'ori': lambda t, a, e, l: ('@ori', _ev(a[0], e, l), _ev(a[1], e, l)),
    'acc': lambda t, a, e, l: ('@acc', _ev(a[0], e, l), _int(a[1], e, l), _int(a[2], e, l)),
    'del': lambda t, a, e, l: ('@del', _ev(a[0], e, l)),
    'maplen': o_maplen, 'mapentries': o_mapentries, 'mapsorted': o_mapsorted, 'rand': o_rand, 'ser': o_ser, 'deser': o_deser, 'map': o_map, 'mget': o_mget, 'mhas': o_mhas, 'mgetor': o_mgetor,
    'sorted': o_sorted, 'uniq': o_uniq, 'colupd': o_colupd,
    'bytesof': o_bytesof, 'frombytes': o_frombytes,
    'trunc': lambda t, a, e, l: _int(a[1], e, l) & ((1 << a[0]) - 1),
    'isnum': lambda t, a, e, l: o_isnum(a, e, l), 'numval': lambda t, a, e, l: o_numval(a, e, l),
    'fileok': lambda t, a, e, l: True, 'filelines': lambda t, a, e, l: e.params['@file'],
    'line': lambda t, a, e, l: ('line', _ev(a[0], e, l)),
    'bit&': lambda t, a, e, l: _int(a[0], e, l) & _int(a[1], e, l),
    'bit|': lambda t, a, e, l: _int(a[0], e, l) | _int(a[1], e, l),
    'int>>': lambda t, a, e, l: _int(a[0], e, l) >> _int(a[1], e, l),
    'int<<': lambda t, a, e, l: _int(a[0], e, l) << _int(a[1], e, l),
    'bitnot': lambda t, a, e, l: ~_int(a[0], e, l),
    'xor': lambda t, a, e, l: _int(a[0], e, l) ^ _int(a[1], e, l),
}


def gfelem(v, env):
    return as_int(v, env) & MASK


def norm_num(v, env):
    """Uninterpreted numbers are compared through the value they stand for."""
    if isinstance(v, list):
        return [norm_num(x, env) for x in v]
    if isinstance(v, tuple):
        return tuple(norm_num(x, env) for x in v)
    return v


def same(a, b, env):
    if isinstance(a, Opq) and isinstance(b, int) and not isinstance(b, bool):
        a = as_int(a, env)
    if isinstance(b, Opq) and isinstance(a, int) and not isinstance(a, bool):
        b = as_int(b, env)
    if isinstance(a, list) and isinstance(b, Opq):
        b = as_list(b, env)
    if isinstance(b, list) and isinstance(a, Opq):
        a = as_list(a, env)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, env) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, env) for x, y in zip(a, b))
    return canon(a) == canon(b)


SALTED |= {'recvd', 'deser', 'randr', 'vx', 'vy', 'rnd', 'rndn', 'zero', 'rnds', 'zs', 'masks', 'keys', 'errs'}
