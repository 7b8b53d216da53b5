"""Models of the library functions the crate calls, as value terms."""
import re
import hashlib
from terms import *
from interp import *
import interp as _i


def seqty(ty):
    b = base_ty(ty)
    return b.startswith(('std::vec::Vec<', '[', 'std::collections::VecDeque', 'ndarray::ArrayBase'))


def shape_list(t):
    if t.op == 'tup':
        return list(t.a)
    if t.op in ('cat', 'arr') and length(t).op == 'int':
        return [at(t, I(k)) for k in range(length(t).a[0])]
    if t.op == 'ctor' and t.a[0].endswith('Dim'):
        return shape_list(t.a[1])
    return [t]


def axis_of(t):
    if t.op == 'ctor' and t.a[0].endswith('Axis') and t.a[1].op == 'int':
        return t.a[1].a[0]
    if t.op == 'struct' and t.a[0].endswith('Axis') and t.a[1][0][1].op == 'int':
        return t.a[1][0][1].a[0]
    return None


def moveaxis_front(t, k):
    """Array with axis k moved to the front."""
    if k == 0:
        return t
    m = dim(t, k)
    v = fresh(m)

    def go(x, d):
        if d == k:
            return at(x, v)
        n = length(x)
        w = fresh(n)
        return arr(n, w, go(at(x, w), d + 1))
    return arr(m, v, go(t, 0))


def axis_pick(t, k, i):
    """t.index_axis(Axis(k), i)"""
    if k == 0:
        return at(t, i)
    n = length(t)
    w = fresh(n)
    return arr(n, w, axis_pick(at(t, w), k - 1, i))


def nd_flat(t, r):
    for _ in range(r - 1):
        t = flat(t)
    return t


def text_tokens(v):
    if v.op == 'line':
        return v.a[0]
    if v.op == 'text':
        return flat(v.a[0])
    return mk('tokens', v)


# calls that yield arrays in standard layout
RELAY = {'as_standard_layout', 'from_shape_vec', 'from_shape_fn', 'from_vec', 'from_iter', 'stack', 'concatenate', 'to_shape', 'into_shape',
         'reshape', 'zeros', 'from_elem', 'assign', 'reversed_axes', 'permuted_axes'}


class Lib(Interp):
    # ------------------------------------------------------------ dispatch
    def lib(self, name, args, n, nodes, b, ga):
        parts = name.split('::')
        m = parts[-1]
        full = getattr(self, 'f_' + name.replace('::', '__').replace('<', '').replace('>', '').replace(' ', '_'), None) \
            if '<' not in name else None
        if full is not None:
            r = full(args, n, nodes)
            if r is not None:
                return r
        if name.startswith('std::sync::atomic::'):
            if m == 'new':
                return self.val(args[0])
            r = self.atomic(name, args)
            if r is not None:
                return r
        if self.laid and m in RELAY:
            self.laid = {}
        f = getattr(self, 'm_' + m, None)
        if f is not None:
            r = f(args, n, nodes)
            if r is not None:
                return r
        return self.opaque_call(name, args, n, nodes, b)

    def opaque_call(self, name, args, n, nodes, b=None):
        if name.startswith('core::panicking') or name.startswith('std::rt::panic') or name.startswith('std::rt::begin_panic'):
            self.note_panic(n, TRUE)
            self.live = FALSE
            return NOTHING
        if name.startswith(('std::process::exit', 'std::process::abort')):
            self.event('exit', n)
            self.live = FALSE
            return NOTHING
        vs = [self.val(a) for a in args]
        self.unknown.append((name, self.loc(n)))
        for v in vs:
            if contains(v, lambda x: x.op == 'joinh'):
                self.event('lost', n, v)
        held = self.held(vs)
        r = mk('call', name, *vs, *held)
        for k, a in enumerate(args):
            if a.op == 'ref':
                self.write(a.a[0], a.a[1], mk('call', name + '#mut%d' % k, *vs, *held))
            elif a.op == 'clo':
                pass
        return r

    def rty(self, nodes, k=0):
        return self.ty(nodes[k]) if nodes and nodes[k] is not None and 't' in nodes[k] else ''

    def pathkey(self):
        return hashlib.md5(repr(self.path).encode()).hexdigest()[:10]

    def lvars(self):
        return tuple(v for v, _ in self.loops)

    # ------------------------------------------------------------ identity-like
    def _id(self, args, n, nodes):
        return self.val(args[0]) if args[0].op == 'ref' and not self.keeps_ref(n) else args[0]

    def keeps_ref(self, n):
        return self.ty(n).startswith('&mut') if 't' in n else False

    def m_clone(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'rng' and v.a[0] not in ('thread', 'os'):
            return self.rng_copy(v, n)
        return v

    m_to_owned = m_cloned_ = m_to_vec = m_into_owned = m_to_shared = m_view = m_as_ref = m_as_slice_ = m_clone
    m_borrow = m_as_bytes = m_to_string = m_into_boxed_slice = m_as_deref = m_deref = m_clone

    def m_cloned(self, args, n, nodes):
        return self.val(args[0])
    m_copied = m_by_ref_ = m_cloned

    def m_as_slice(self, args, n, nodes):
        v = self.val(args[0])
        if is_nd(self.rty(nodes)):
            return NONE if v in self.laid else some(nd_flat(v, rank(self.rty(nodes))))
        return v

    def m_into(self, args, n, nodes):
        v = self.val(args[0])
        s, t = self.rty(nodes), self.ty(n)
        return self.convert(v, s, t, n)

    def convert(self, v, s, t, n):
        bs, bt = base_ty(s), base_ty(t)
        if is_gf(t) and bs == 'u32':
            return gfint(v)
        if is_gf(s) and bt == 'u32':
            return gfval(v)
        b = self.p.froms.get((bs.split('<')[0], bt.split('<')[0]))
        if b is not None and not self.gf_prim(b):
            return self.call_body(b, [v], {}, self.loc(n))
        if bs == 'bool' and bt in BITS:
            return ite(v, I(1), I(0))
        if bt.startswith('json::') or bs in BITS and bt in BITS:
            return v
        return v

    def m_from(self, args, n, nodes):
        v = self.val(args[0])
        t = self.ty(n)
        s = self.rty(nodes)
        if not s and self.ty(n).startswith('scalable'):
            pass
        if is_gf(t):
            return gfint(v)
        if 'SliceInfoElem' in t:
            return v
        if s:
            if is_nd(t) and not is_nd(s):
                return v
            return self.convert(v, s, t, n)
        if base_ty(t) == 'u32':
            return gfval(v) if v.op in ('gf', 'gfint') else v
        return v

    def m_try_into(self, args, n, nodes):
        v = self.val(args[0])
        s, t = base_ty(self.rty(nodes)), self.ty(n)
        m = re.match(r'std::result::Result<(\w+), ', t)
        dst = m.group(1) if m else ''
        if s in BITS and dst in BITS:
            fits = BITS[dst] > BITS[s] or (BITS[dst] == BITS[s] and s[0] == dst[0]) or v.op == 'int'
            if not fits:
                self.event('narrow', n, v, S(dst))
                if self.reactive:
                    return res(lt(v, I(1 << BITS[dst])), v, NOTHING)
            return res(TRUE, v, NOTHING)
        return res(TRUE, v, NOTHING)
    m_try_from = m_try_into

    def m_unwrap(self, args, n, nodes):
        v = self.val(args[0])
        t = self.rty(nodes)
        if 'Option<' in base_ty(t)[:30]:
            c = is_some(v)
            if c is not TRUE:
                self.event('unwrap', n, c, v)
            return opt_val(v)
        c = is_ok(v)
        if c is not TRUE:
            self.event('unwrap', n, c, v)
        return ok_val(v)
    m_expect = m_unwrap
    m_unwrap_unchecked = m_unwrap

    def m_unwrap_or(self, args, n, nodes):
        v = self.val(args[0])
        d = self.val(args[1])
        if 'Option<' in base_ty(self.rty(nodes))[:30]:
            return ite(is_some(v), opt_val(v), d)
        return ite(is_ok(v), ok_val(v), d)

    def m_unwrap_or_else(self, args, n, nodes):
        v = self.val(args[0])
        isopt = 'Option<' in base_ty(self.rty(nodes))[:30]
        c = is_some(v) if isopt else is_ok(v)
        x = opt_val(v) if isopt else ok_val(v)
        return self.branch(c, lambda: x, lambda: self.call_val(args[1], [] if isopt else [err_val(v)], n))

    def m_unwrap_or_default(self, args, n, nodes):
        v = self.val(args[0])
        isopt = 'Option<' in base_ty(self.rty(nodes))[:30]
        c = is_some(v) if isopt else is_ok(v)
        x = opt_val(v) if isopt else ok_val(v)
        return ite(c, x, self.default_of(self.ty(n)))

    def default_of(self, ty):
        b = base_ty(ty)
        if b in BITS:
            return I(0)
        if b == 'bool':
            return FALSE
        if b.startswith(('std::vec::Vec', 'std::collections::VecDeque')):
            return EMPTY
        if b.startswith(('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet')):
            return mk('map', EMPTY)
        if b.startswith('std::string::String'):
            return S('')
        if is_gf(ty):
            return GZERO
        if b.startswith('std::option::Option'):
            return NONE
        return mk('default', b)

    def m_default(self, args, n, nodes):
        return self.default_of(self.ty(n))

    def m_is_some(self, args, n, nodes):
        return is_some(self.val(args[0]))

    def m_is_none(self, args, n, nodes):
        return bnot(is_some(self.val(args[0])))

    def m_is_ok(self, args, n, nodes):
        return is_ok(self.val(args[0]))

    def m_is_err(self, args, n, nodes):
        return bnot(is_ok(self.val(args[0])))

    def m_ok(self, args, n, nodes):
        v = self.val(args[0])
        return opt(is_ok(v), ok_val(v))

    def m_err(self, args, n, nodes):
        v = self.val(args[0])
        return opt(bnot(is_ok(v)), err_val(v))

    def m_ok_or(self, args, n, nodes):
        v = self.val(args[0])
        return res(is_some(v), opt_val(v), self.val(args[1]))

    def m_ok_or_else(self, args, n, nodes):
        v = self.val(args[0])
        return res(is_some(v), opt_val(v), self.call_val(args[1], [], n))

    def m_map_err(self, args, n, nodes):
        v = self.val(args[0])
        return res(is_ok(v), ok_val(v), self.call_val(args[1], [err_val(v)], n))

    def m_then(self, args, n, nodes):
        if base_ty(self.rty(nodes)) == 'bool':
            c = self.val(args[0])
            r = self.branch(c, lambda: self.call_val(args[1], [], n), lambda: NOTHING)
            return opt(c, r)

    def m_then_some(self, args, n, nodes):
        return opt(self.val(args[0]), self.val(args[1]))

    def m_and_then(self, args, n, nodes):
        v = self.val(args[0])
        if 'Option<' in base_ty(self.rty(nodes))[:30]:
            c = is_some(v)
            return self.branch(c, lambda: self.val(self.call_val(args[1], [opt_val(v)], n)), lambda: NONE)

    # ------------------------------------------------------------ numbers
    def m_max(self, args, n, nodes):
        if len(args) == 2:
            return imax(self.val(args[0]), self.val(args[1]))
        s = self.iter_of(args[0])
        return mk('maxof', s)

    def m_min(self, args, n, nodes):
        if len(args) == 2:
            return imin(self.val(args[0]), self.val(args[1]))
        return mk('minof', self.iter_of(args[0]))

    def m_pow(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        if a.op == 'int' and b.op == 'int':
            return I(a.a[0] ** b.a[0])
        if a is I(2):
            return mk('pow2', b)
        return mk('pow', a, b)

    def m_next_power_of_two(self, args, n, nodes):
        return mk('npow2', self.val(args[0]))

    def m_ilog2(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'pow2':
            return v.a[0]
        if v.op == 'npow2':
            return clog2(v.a[0])
        return mk('ilog2', v)

    def m_div_ceil(self, args, n, nodes):
        return ceildiv(self.val(args[0]), self.val(args[1]))

    def m_saturating_sub(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        return sub(a, imin(a, b))

    def m_abs_diff(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        return sub(imax(a, b), imin(a, b))

    def f_std__ops__RangeInclusive__new(self, args, n, nodes):
        return mk('range', self.val(args[0]), add(self.val(args[1]), I(1)))

    def m_wrapping_sub(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        w = BITS.get(base_ty(self.rty(nodes)))
        return None if w is None else fmod(add(I(1 << w), sub(a, b)), I(1 << w))

    def m_wrapping_add(self, args, n, nodes):
        return mk('wadd', self.val(args[0]), self.val(args[1]))

    def m_wrapping_mul(self, args, n, nodes):
        return mk('wmul', self.val(args[0]), self.val(args[1]))

    def m_checked_add(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        t = base_ty(self.rty(nodes))
        lim = I((1 << BITS.get(t, 64)) - 1)
        return opt(le(add(a, b), lim), add(a, b))

    def m_checked_sub(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        return opt(le(b, a), sub(a, b))

    def m_overflowing_add(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        t = base_ty(self.rty(nodes))
        k = 1 << BITS.get(t, 64)
        s = add(a, b)
        c = le(I(k), s)
        return mk('tup', ite(c, sub(s, I(k)), s), c)

    def m_to_be_bytes(self, args, n, nodes):
        v = self.val(args[0])
        return self.bytesof('be', v, self.rty(nodes))

    def m_to_le_bytes(self, args, n, nodes):
        v = self.val(args[0])
        return self.bytesof('le', v, self.rty(nodes))

    def m_to_ne_bytes(self, args, n, nodes):
        return self.bytesof('ne', self.val(args[0]), self.rty(nodes))

    def bytesof(self, e, v, ty):
        k = BITS.get(base_ty(ty), 64) // 8
        if _i.RAW[0]:
            bs = [fmod(fdiv(v, I(1 << 8 * i)), I(256)) for i in range(k)]
            return lst(*(bs[::-1] if e == 'be' else bs))
        return mk('bytesof', v, I(k), e)

    def frombytes(self, e, v):
        k = length(v)
        if _i.RAW[0] and k.op == 'int' and k.a[0] <= 8:
            r = I(0)
            for i in range(k.a[0]):
                r = add(r, mul(I(1 << 8 * (k.a[0] - 1 - i if e == 'be' else i)), at(v, I(i))))
            return r
        return mk('frombytes', e, v)

    def m_from_le_bytes(self, args, n, nodes):
        return self.frombytes('le', self.val(args[0]))

    def m_from_be_bytes(self, args, n, nodes):
        return self.frombytes('be', self.val(args[0]))

    # interior mutability: the receiver is a place
    def f_std__sync__OnceLock__new(self, args, n, nodes):
        return NONE
    f_std__cell__OnceCell__new = f_std__sync__OnceLock__new

    def f_std__sync__Once__new(self, args, n, nodes):
        return FALSE

    def f_std__sync__Once__is_completed(self, args, n, nodes):
        return self.val(args[0])

    def f_std__sync__Once__call_once(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None

        def init():
            self.call_val(args[1], [], n)
            self.write(r.a[0], r.a[1], TRUE)
            return UNIT
        self.branch(self.val(r), lambda: UNIT, init)
        return UNIT

    def m_get_or_init(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None

        def init():
            v = self.val(self.call_val(args[1], [], n))
            self.write(r.a[0], r.a[1], some(v))
            return v
        return self.branch(is_some(self.val(r)), lambda: opt_val(self.val(r)), init)

    def f_std__sync__OnceLock__get(self, args, n, nodes):
        return self.val(args[0])
    f_std__cell__OnceCell__get = f_std__sync__OnceLock__get

    def f_std__sync__OnceLock__set(self, args, n, nodes):
        r = args[0]
        v = self.val(args[1])
        if r.op != 'ref':
            return None
        old = self.val(r)
        self.write(r.a[0], r.a[1], ite(is_some(old), old, some(v)))
        return res(bnot(is_some(old)), UNIT, v)
    f_std__cell__OnceCell__set = f_std__sync__OnceLock__set

    def atomic(self, name, args):
        r = args[0]
        if r.op != 'ref':
            return None
        v = self.val(r)
        op = name.split('::')[-1]
        x = self.val(args[1]) if len(args) > 1 else None
        if op == 'new':
            return self.val(args[0])
        if op == 'load':
            return v
        if op in ('store', 'swap'):
            self.write(r.a[0], r.a[1], x)
            return UNIT if op == 'store' else v
        if op in ('compare_exchange', 'compare_exchange_weak'):
            y = self.val(args[2])
            c = eqt(v, x, 'int') if v.op not in ('bool', 'not', 'and', 'or', 'ite') and x.op != 'bool' else (v if x is TRUE else bnot(v))
            self.write(r.a[0], r.a[1], ite(c, y, v))
            return res(c, v, v)
        f = {'fetch_add': add, 'fetch_sub': sub, 'fetch_or': bor, 'fetch_and': band, 'fetch_max': imax, 'fetch_min': imin}.get(op)
        if f:
            self.write(r.a[0], r.a[1], f(v, x))
            return v
        return None

    # operators called as methods
    def op2(self, op, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        return self.binop(op, a, b, self.rty(nodes, 0) or self.gty(a), self.rty(nodes, 1) or self.gty(b), self.ty(n), n)

    def gty(self, t):
        if t.op in ('gf', 'gfint'):
            return GFP + 'W>'
        return TY.get(t, '')

    def m_add(self, args, n, nodes):
        return self.op2('+', args, n, nodes)

    def m_sub(self, args, n, nodes):
        return self.op2('-', args, n, nodes)

    def m_mul(self, args, n, nodes):
        return self.op2('*', args, n, nodes)

    def m_div(self, args, n, nodes):
        return self.op2('/', args, n, nodes)

    def m_eq(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        return self.eq_values(a, b, self.rty(nodes, 0), self.rty(nodes, 1))

    def m_ne(self, args, n, nodes):
        return bnot(self.m_eq(args, n, nodes))

    def opa(self, op, args, n, nodes):
        if args[0].op != 'ref':
            return UNIT
        a, b = self.val(args[0]), self.val(args[1])
        r = self.binop(op, a, b, self.rty(nodes, 0) or self.gty(a), self.rty(nodes, 1) or self.gty(b), '', n)
        self.write(args[0].a[0], args[0].a[1], r)
        return UNIT

    def m_add_assign(self, args, n, nodes):
        return self.opa('+', args, n, nodes)

    def m_sub_assign(self, args, n, nodes):
        return self.opa('-', args, n, nodes)

    def m_mul_assign(self, args, n, nodes):
        return self.opa('*', args, n, nodes)

    def m_div_assign(self, args, n, nodes):
        return self.opa('/', args, n, nodes)

    def m_zero(self, args, n, nodes):
        if is_gf(self.ty(n)):
            return GZERO

    def m_one(self, args, n, nodes):
        if is_gf(self.ty(n)):
            return GONE

    def m_is_zero(self, args, n, nodes):
        if is_gf(self.rty(nodes)):
            return gfeq(self.val(args[0]), GZERO)

    def m_cmp(self, args, n, nodes):
        return mk('ordering', self.val(args[0]), self.val(args[1]))

    def m_index(self, args, n, nodes):
        return self.index(self.val(args[0]), self.val(args[1]), {**n, 'e': nodes[0]})

    def m_get(self, args, n, nodes):
        s, i = self.val(args[0]), self.val(args[1])
        bt = base_ty(self.rty(nodes))
        if bt.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            h, v = self._mlook(s, i)
            return opt(h, v)
        if i.op == 'range':
            hi = length(s) if i.a[1] is NOTHING else i.a[1]
            return opt(le(hi, length(s)), seqslice(s, i.a[0], hi))
        return opt(lt(i, length(s)), at(s, i))

    def m_get_mut(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        s, i = self.val(r), self.val(args[1])
        bt = base_ty(self.rty(nodes))
        if bt.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            h, v = self._mlook(s, i)
            return opt(h, mk('ref', r.a[0], r.a[1] + (('map', i),)))
        return opt(lt(i, length(s)), mk('ref', r.a[0], r.a[1] + (('i', i),)))

    def m_contains_key(self, args, n, nodes):
        return self._mlook(self.val(args[0]), self.val(args[1]))[0]

    def m_insert(self, args, n, nodes):
        r = args[0]
        bt = base_ty(self.rty(nodes))
        if r.op != 'ref':
            return None
        if bt.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            m = self.val(r)
            k, v = self.val(args[1]), self.val(args[2])
            h, old = self._mlook(m, k)
            self.event('mapinsert', n, m, k, v)
            self.write(r.a[0], r.a[1], self.mins(m, k, v))
            return opt(h, old)
        if bt.startswith(('std::collections::HashSet', 'std::collections::BTreeSet')):
            m = self.val(r)
            k = self.val(args[1])
            h, _ = self._mlook(m, k)
            self.write(r.a[0], r.a[1], self.mins(m, k, UNIT))
            return bnot(h)
        if bt.startswith('std::vec::Vec'):
            s = self.val(r)
            i = self.val(args[1])
            self.write(r.a[0], r.a[1], cat(seqslice(s, I(0), i), one(self.val(args[2])), seqslice(s, i, length(s))))
            return UNIT
        if bt.startswith('json'):
            o = self.val(r)
            self.write(r.a[0], r.a[1], self.jset(o, self.val(args[1]), self.val(args[2])))
            return UNIT
        return None

    def m_remove(self, args, n, nodes):
        r = args[0]
        bt = base_ty(self.rty(nodes))
        if r.op != 'ref':
            return None
        if bt.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            m = self.val(r)
            k = self.val(args[1])
            h, v = self._mlook(m, k)
            self.event('mapremove', n, m, k)
            self.write(r.a[0], r.a[1], self.map_ext(m, mk('del', k)))
            return opt(h, v)
        if bt.startswith('std::vec::Vec'):
            s = self.val(r)
            i = self.val(args[1])
            self.write(r.a[0], r.a[1], cat(seqslice(s, I(0), i), seqslice(s, add(i, I(1)), length(s))))
            return at(s, i)
        return None

    def m_entry(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            return mk('entry', r, self.val(args[1]))

    def m_or_insert(self, args, n, nodes):
        e = args[0] if args[0].op == 'entry' else self.val(args[0])
        if e.op == 'entry':
            r, k = e.a
            d = self.val(args[1])
            self.event('mapentry', n, self.val(r), k, d)
            return self.orins(r, k, d)

    def orins(self, r, k, d):
        self.write(r.a[0], r.a[1], self.map_ext(self.val(r), mk('ori', k, d)))
        return mk('ref', r.a[0], r.a[1] + (('mapor', k, d),))

    def m_or_default(self, args, n, nodes):
        e = args[0] if args[0].op == 'entry' else self.val(args[0])
        if e.op == 'entry':
            r, k = e.a
            t = self.ty(n)
            d = self.default_of(t)
            return self.orins(r, k, d)

    def m_or_insert_with(self, args, n, nodes):
        e = args[0] if args[0].op == 'entry' else self.val(args[0])
        if e.op == 'entry':
            r, k = e.a
            d = self.val(self.call_val(args[1], [], n))
            return self.orins(r, k, d)

    def m_and_modify(self, args, n, nodes):
        return None

    # ------------------------------------------------------------ sequences
    def m_len(self, args, n, nodes):
        v = self.val(args[0])
        t = self.rty(nodes)
        if is_nd(t):
            r = rank(t)
            p = I(1)
            for k in range(r):
                p = mul(p, dim(v, k))
            return p
        if v.op == 'map':
            return mk('maplen', v)
        return length(self.iter_of(v)) if v.op in ('range',) else length(v)

    def m_count(self, args, n, nodes):
        return length(self.iter_of(args[0]))

    def m_is_empty(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'map' or base_ty(self.rty(nodes)).startswith('std::collections::HashMap'):
            return mk('mapempty', v)
        return eq0(self.m_len(args, n, nodes))

    def m_shape(self, args, n, nodes):
        v = self.val(args[0])
        r = rank(self.rty(nodes))
        return lst(*[dim(v, k) for k in range(r)])

    def m_raw_dim(self, args, n, nodes):
        return self.m_shape(args, n, nodes)

    def m_dim(self, args, n, nodes):
        v = self.val(args[0])
        r = rank(self.rty(nodes))
        if r == 1:
            return length(v)
        return mk('tup', *[dim(v, k) for k in range(r)])

    def m_nrows(self, args, n, nodes):
        return length(self.val(args[0]))

    def m_ncols(self, args, n, nodes):
        return dim(self.val(args[0]), 1)

    def m_len_of(self, args, n, nodes):
        k = axis_of(self.val(args[1]))
        if k is not None:
            return dim(self.val(args[0]), k)

    def m_iter(self, args, n, nodes):
        v = self.val(args[0])
        t = self.rty(nodes)
        if is_nd(t):
            return nd_flat(v, rank(t))
        self.hash_walk(t, n)
        return self.walk(v, t)

    def walk(self, v, t):
        """Items of a collection; ordered maps give theirs by key, sets only the keys."""
        b = base_ty(t)
        if v.op != 'map' or not b.startswith('std::collections::'):
            return self.iter_of(v)
        e = mk('mapsorted', v) if 'BTree' in b[:30] else self.iter_of(v)
        if 'Set<' not in b[:30]:
            return e
        w = fresh(length(e))
        return arr(length(e), w, field(at(e, w), '0'))

    def hash_walk(self, t, n):
        if 'HashMap<' in t[:60] or 'HashSet<' in t[:60]:
            self.event('hashiter', n, S(t))

    def entries(self, args, n, nodes, k):
        v = self.val(args[0])
        if v.op != 'map':
            return None
        self.hash_walk(self.rty(nodes), n)
        e = self.walk(v, self.rty(nodes))
        nn = length(e)
        w = fresh(nn)
        return arr(nn, w, field(at(e, w), k))

    def m_keys(self, args, n, nodes):
        return self.entries(args, n, nodes, '0')
    m_into_keys = m_keys

    def m_values(self, args, n, nodes):
        return self.entries(args, n, nodes, '1')
    m_into_values = m_values

    m_par_iter = m_iter

    def m_into_iter(self, args, n, nodes):
        a = args[0]
        t = self.rty(nodes)
        if a.op == 'ref' and t.startswith('&') and 'mut ' in t[:8] and seqty(t):
            return self.refs(a, rank(t))
        if a.op == 'ref' and self.is_iter_ref(a, t):
            return a
        return self.m_iter(args, n, nodes)

    m_into_par_iter = m_into_iter

    def is_iter_ref(self, a, t):
        return t.startswith('&mut') and not seqty(t)

    def m_by_ref(self, args, n, nodes):
        return args[0]

    def refs(self, r, rk=1):
        v = self.val(r)
        if rk <= 1:
            nn = length(v)
            w = fresh(nn)
            return arr(nn, w, mk('ref', r.a[0], r.a[1] + (('i', w),)))
        nn = length(v)
        w = fresh(nn)
        return flat(arr(nn, w, self.refs(mk('ref', r.a[0], r.a[1] + (('i', w),)), rk - 1)))

    def m_iter_mut(self, args, n, nodes):
        if args[0].op == 'ref':
            return self.refs(args[0], max(1, rank(self.rty(nodes))))
    m_par_iter_mut = m_iter_mut

    def take_iter(self, a):
        """Consume an iterator argument; iterators held in variables are drained."""
        if a.op == 'ref':
            v = self.val(a)
            if v.op in ('arr', 'cat', 'flat', 'slice', 'param', 'at', 'range', 'lazy', 'ite', 'case'):
                self.write(a.a[0], a.a[1], EMPTY)
            return self.iter_of(v)
        return self.iter_of(a)

    def items(self, args, nodes, k):
        """Items of the k-th argument; arrays give their elements."""
        t = self.rty(nodes, k) if nodes and len(nodes) > k else ''
        s = self.take_iter(args[k])
        return nd_flat(s, rank(t)) if is_nd(t) else s

    def sq(self, a):
        s = self.iter_of(a)
        if s.op == 'lazy':
            return self.unk('endless', None, s)
        return s

    def mklazy(self, fn):
        k = len(self.lazies) + 1
        self.lazies[k] = fn
        return mk('lazy', k)

    def force_lazy(self, s, nn):
        fn = self.lazies[s.a[0]]
        r, v, _ = self.run_loop(nn, fn)
        if v is None:
            return lst(*[self.val(x) if x.op == 'ref' else x for x in r])
        return arr(nn, v, self.val(r) if r.op == 'ref' else r)

    def m_map(self, args, n, nodes):
        t = base_ty(self.rty(nodes))
        v = args[0]
        if t.startswith('std::option::Option<'):
            v = self.val(v)
            c = is_some(v)
            x = self.branch(c, lambda: self.val(self.call_val(args[1], [opt_val(v)], n)), lambda: NOTHING)
            return opt(c, x)
        if t.startswith('std::result::Result<'):
            v = self.val(v)
            c = is_ok(v)
            x = self.branch(c, lambda: self.val(self.call_val(args[1], [ok_val(v)], n)), lambda: NOTHING)
            return res(c, x, err_val(v))
        f = args[1]
        if is_nd(self.rty(nodes)):
            return self.nd_map(self.val(v), rank(self.rty(nodes)), lambda x: self.call_val(f, [x], n))
        s = self.take_iter(v)
        if s.op == 'lazy':
            return self.mklazy(lambda i: self.call_val(f, [self.lazies[s.a[0]](i)], n))
        return self.for_seq(s, lambda e: self.call_val(f, [e], n))

    m_mapv = m_map

    def nd_map(self, v, r, f):
        if r == 0:
            return self.val(f(v))
        return self.for_seq(v, lambda e: self.nd_map(e, r - 1, f))

    def m_flat_map(self, args, n, nodes):
        s = self.take_iter(args[0])
        return flat(self.for_seq(s, lambda e: self.iter_of(self.call_val(args[1], [e], n))))
    m_flat_map_iter = m_flat_map

    def m_flatten(self, args, n, nodes):
        s = self.take_iter(args[0])
        return flat(self.for_seq(s, lambda e: self.iter_of(e)))
    m_flatten_iter = m_flatten

    def m_filter(self, args, n, nodes):
        s = self.take_iter(args[0])

        def f(e):
            c = self.val(self.call_val(args[1], [e], n))
            return ite(c, one(self.val(e)), EMPTY)
        return flat(self.for_seq(s, f))

    def m_filter_map(self, args, n, nodes):
        s = self.take_iter(args[0])

        def f(e):
            o = self.val(self.call_val(args[1], [e], n))
            return ite(is_some(o), one(opt_val(o)), EMPTY)
        return flat(self.for_seq(s, f))

    def m_map_init(self, args, n, nodes):
        s = self.take_iter(args[0])

        def f(e):
            a = self.alloc(self.val(self.call_val(args[1], [], n)))
            return self.call_val(args[2], [mk('ref', a, ()), e], n)
        return self.for_seq(s, f)

    def m_map_with(self, args, n, nodes):
        s = self.take_iter(args[0])

        def f(e):
            v = self.val(args[1])
            if v.op == 'rng' and v.a[0] not in ('thread', 'os'):
                v = self.rng_copy(v, n)
            return self.call_val(args[2], [mk('ref', self.alloc(v), ()), e], n)
        return self.for_seq(s, f)

    def m_for_each_init(self, args, n, nodes):
        self.m_map_init(args, n, nodes)
        return UNIT

    def m_for_each_with(self, args, n, nodes):
        self.m_map_with(args, n, nodes)
        return UNIT

    def m_for_each(self, args, n, nodes):
        v = args[0]
        if self.val(v).op == 'zip':
            return self.zip_each(self.val(v), args[1], n)
        s = self.take_iter(v)
        self.for_seq(s, lambda e: (self.call_val(args[1], [e], n), UNIT)[1])
        return UNIT

    def m_enumerate(self, args, n, nodes):
        s = self.take_iter(args[0])
        if s.op == 'lazy':
            return self.mklazy(lambda i: mk('tup', i, self.lazies[s.a[0]](i)))
        nn = length(s)
        if nn.op == 'int' and nn.a[0] <= 16:
            return lst(*[mk('tup', I(i), at(s, I(i))) for i in range(nn.a[0])])
        if s.op == 'cat':
            off = I(0)
            out = []
            for g in s.a:
                k = length(g)
                w = fresh(k)
                out.append(arr(k, w, mk('tup', add(off, w), at(g, w))))
                off = add(off, k)
            return cat(*out)
        if s.op == 'flat' or s.op in ('ite', 'case'):
            cell = self.alloc(I(0))

            def f(e):
                i = self.store[cell]
                self.store[cell] = add(i, I(1))
                return mk('tup', i, e)
            return self.for_seq(s, f)
        w = fresh(nn)
        return arr(nn, w, mk('tup', w, at(s, w)))

    def m_zip(self, args, n, nodes):
        a = self.take_iter(args[0])
        return self.zip2(a, self.items(args, nodes, 1))

    m_zip_eq = m_zip

    def m_izip(self, args, n, nodes):
        return None

    def zip2(self, a, b):
        if a.op == 'lazy' and b.op != 'lazy':
            a = self.force_lazy(a, length(b))
        if b.op == 'lazy' and a.op != 'lazy':
            b = self.force_lazy(b, length(a))
        na, nb = length(a), length(b)
        if na is INF:
            m = nb
        elif nb is INF:
            m = na
        elif na is nb:
            m = na
        else:
            m = imin(na, nb)
            if m.op == 'min':
                # lengths of opaque sequences are taken to agree; recorded for the report
                self.zips.append((na, nb, self.fr.body['path'] if self.fr and self.fr.body else '?'))
                m = nb if na.op in ('len', 'dim') else na
        if m.op == 'int' and m.a[0] <= 16:
            return lst(*[mk('tup', at(a, I(i)), at(b, I(i))) for i in range(m.a[0])])
        w = fresh(m)
        return arr(m, w, mk('tup', at(a, w), at(b, w)))

    def m_zip_fn(self, args, n, nodes):
        return None

    def m_chain(self, args, n, nodes):
        a = self.take_iter(args[0])
        b = self.items(args, nodes, 1)
        if b.op == 'lazy':
            return mk('lazycat', a, b)
        return cat(a, b)

    def m_take(self, args, n, nodes):
        if base_ty(self.rty(nodes)).startswith('std::option::Option'):
            r = args[0]
            if r.op == 'ref':
                v = self.val(r)
                self.write(r.a[0], r.a[1], NONE)
                return v
        k = self.val(args[1])
        if args[0].op == 'ref':
            # by_ref().take(k): removes k elements from the underlying iterator
            v = self.iter_of(self.val(args[0]))
            if v.op not in ('lazy', 'lazycat'):
                self.write(args[0].a[0], args[0].a[1], seqslice(v, k, length(v)))
                return seqslice(v, I(0), k)
        s = self.iter_of(args[0])
        if s.op == 'lazy':
            return self.force_lazy(s, k)
        if s.op == 'lazycat':
            a, lz = s.a
            na = length(a)
            m = imin(k, na)
            if m is k:
                return seqslice(a, I(0), k)
            if m is na:
                return cat(a, self.force_lazy(lz, sub(k, na)))
            return cat(seqslice(a, I(0), m), self.force_lazy(lz, sub(k, m)))
        nn = length(s)
        if nn is INF:
            return seqslice(s, I(0), k)
        m = imin(k, nn)
        return seqslice(s, I(0), m)

    def m_skip(self, args, n, nodes):
        s = self.sq(args[0])
        k = self.val(args[1])
        nn = length(s)
        return seqslice(s, k if nn is INF else imin(k, nn), nn)

    def m_step_by(self, args, n, nodes):
        s = self.sq(args[0])
        k = self.val(args[1])
        nn = length(s)
        m = INF if nn is INF else ceildiv(nn, k)
        w = fresh(m)
        return arr(m, w, at(s, mul(w, k)))

    def m_rev(self, args, n, nodes):
        s = self.sq(args[0])
        nn = length(s)
        if s.op == 'cat' and all(length(x).op == 'int' for x in s.a):
            return cat(*[self.rev1(x) for x in reversed(s.a)])
        return self.rev1(s)

    def rev1(self, s):
        nn = length(s)
        if nn is I(1):
            return s
        w = fresh(nn)
        return arr(nn, w, at(s, sub(sub(nn, I(1)), w)))

    def m_reverse(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], self.m_rev([self.val(r)], n, nodes))
            return UNIT

    def m_cycle(self, args, n, nodes):
        s = self.sq(args[0])
        nn = length(s)
        w = fresh(INF)
        return arr(INF, w, at(s, fmod(w, nn)))

    def m_collect(self, args, n, nodes):
        v = args[0]
        s = self.take_iter(v)
        t = base_ty(self.ty(n))
        if s.op in ('lazy', 'lazycat'):
            return self.unk('endless', n, s)
        if t.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            return mk('map', s)
        if t.startswith(('std::collections::HashSet', 'std::collections::BTreeSet')):
            nn = length(s)
            w = fresh(nn)
            return mk('map', arr(nn, w, mk('tup', at(s, w), UNIT)))
        if t.startswith('std::result::Result<') or t.startswith('std::option::Option<'):
            nn = length(s)
            w = fresh(nn)
            x = at(s, w)
            if t.startswith('std::result::Result<'):
                return res(binder('forall', nn, w, is_ok(x)), arr(nn, w, ok_val(x)), mk('firsterr', s))
            return opt(binder('forall', nn, w, is_some(x)), arr(nn, w, opt_val(x)))
        return s

    def m_collect_vec(self, args, n, nodes):
        return self.take_iter(args[0])

    def m_collect_into_vec(self, args, n, nodes):
        s = self.take_iter(args[0])
        r = args[1]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], s)
            return UNIT

    def fold(self, s, init, f, n):
        cell = self.alloc(init)

        def g(e):
            self.store[cell] = self.val(f(self.store[cell], e))
            return UNIT
        self.for_seq(s, g)
        return self.store[cell]

    def m_fold(self, args, n, nodes):
        if len(args) != 3:
            return None
        s = self.take_iter(args[0])
        return self.fold(s, self.val(args[1]), lambda a, e: self.call_val(args[2], [a, e], n), n)

    def m_reduce(self, args, n, nodes):
        s = self.take_iter(args[0])
        if len(args) == 3:
            init = self.val(self.call_val(args[1], [], n))
            return self.fold(s, init, lambda a, e: self.call_val(args[2], [a, e], n), n)
        nn = length(s)
        init = at(s, I(0))
        r = self.fold(seqslice(s, I(1), nn), init, lambda a, e: self.call_val(args[1], [a, e], n), n)
        return opt(lt(I(0), nn), r)

    def m_sum(self, args, n, nodes):
        t = self.rty(nodes)
        if is_nd(t):
            s = nd_flat(self.val(args[0]), rank(t))
        else:
            s = self.take_iter(args[0])
        gf = is_gf(self.ty(n))
        return self.fold(s, GZERO if gf else I(0), lambda a, e: gadd(a, self.val(e)) if gf else add(a, self.val(e)), n)

    def m_product(self, args, n, nodes):
        s = self.take_iter(args[0])
        gf = is_gf(self.ty(n))
        return self.fold(s, GONE if gf else I(1), lambda a, e: gmul(a, self.val(e)) if gf else mul(a, self.val(e)), n)

    def m_scan(self, args, n, nodes):
        s = self.take_iter(args[0])
        cell = self.alloc(self.val(args[1]))

        def f(e):
            o = self.val(self.call_val(args[2], [mk('ref', cell, ()), e], n))
            if is_some(o) is not TRUE:
                self.unk('scan-stops', n)
            return opt_val(o)
        return self.for_seq(s, f)

    def quant(self, args, n, op):
        s = self.take_iter(args[0])
        out = []

        def f(e):
            return self.val(self.call_val(args[1], [e], n))
        r = self.for_seq(s, f)
        return self.quantseq(r, op)

    def quantseq(self, r, op):
        nn = length(r)
        if nn.op == 'int' and nn.a[0] <= 16:
            xs = [at(r, I(i)) for i in range(nn.a[0])]
            return band(*xs) if op == 'forall' else bor(*xs)
        if r.op == 'cat':
            xs = [self.quantseq(x, op) for x in r.a]
            return band(*xs) if op == 'forall' else bor(*xs)
        w = fresh(nn)
        b = at(r, w)
        if b is (TRUE if op == 'forall' else FALSE):
            return b
        return binder(op, nn, w, b)

    def m_all(self, args, n, nodes):
        return self.quant(args, n, 'forall')

    def m_any(self, args, n, nodes):
        return self.quant(args, n, 'exists')

    def m_contains(self, args, n, nodes):
        s = self.val(args[0])
        x = self.val(args[1])
        if s.op in ('range', 'map'):
            return None
        nn = length(s)
        w = fresh(nn)
        gf = is_gf(self.rty(nodes, 1))
        return binder('exists', nn, w, gfeq(at(s, w), x) if gf else eqt(at(s, w), x))

    def m_position(self, args, n, nodes):
        s = self.take_iter(args[0])
        nn = length(s)
        w = fresh(nn)
        c = self.val(self.call_val(args[1], [at(s, w)], n))
        ex = binder('exists', nn, w, c)
        return opt(ex, binder('posn', nn, w, c))
    m_position_any = m_position_first = m_position

    def m_find(self, args, n, nodes):
        s = self.take_iter(args[0])
        nn = length(s)
        w = fresh(nn)
        c = self.val(self.call_val(args[1], [at(s, w)], n))
        return opt(binder('exists', nn, w, c), at(s, binder('posn', nn, w, c)))

    def m_unzip(self, args, n, nodes):
        s = self.take_iter(args[0])
        nn = length(s)
        if nn.op == 'int' and nn.a[0] <= 16:
            xs = [at(s, I(i)) for i in range(nn.a[0])]
            return mk('tup', lst(*[field(x, '0') for x in xs]), lst(*[field(x, '1') for x in xs]))
        w, u = fresh(nn), fresh(nn)
        return mk('tup', arr(nn, w, field(at(s, w), '0')), arr(nn, u, field(at(s, u), '1')))

    def m_partition(self, args, n, nodes):
        s = self.take_iter(args[0])

        def f(pos):
            def g(e):
                c = self.val(self.call_val(args[1], [e], n))
                return ite(c if pos else bnot(c), one(self.val(e)), EMPTY)
            return flat(self.for_seq(s, g))
        return mk('tup', f(True), f(False))

    def m_chunks(self, args, n, nodes):
        s = self.iter_of(args[0])
        k = self.val(args[1])
        nn = length(s)
        m = ceildiv(nn, k)
        w = fresh(m)
        lo = mul(w, k)
        return arr(m, w, self.chunk_at(s, lo, k, nn))
    m_par_chunks = m_chunks

    def chunk_at(self, s, lo, k, nn):
        ln = imin(k, sub(nn, lo))
        u = fresh(ln)
        return arr(ln, u, at(s, add(lo, u)))

    def m_chunks_exact(self, args, n, nodes):
        s = self.iter_of(args[0])
        k = self.val(args[1])
        nn = length(s)
        m = fdiv(nn, k)
        w = fresh(m)
        u = fresh(k)
        return arr(m, w, arr(k, u, at(s, add(mul(w, k), u))))
    m_par_chunks_exact = m_chunks_exact

    def m_windows(self, args, n, nodes):
        s = self.val(args[0])
        k = self.val(args[1])
        m = add(length(s), I(1))
        m = sub(m, imin(m, k))      # none if the sequence is shorter
        w = fresh(m)
        u = fresh(k)
        return arr(m, w, arr(k, u, at(s, add(w, u))))

    def m_split_at(self, args, n, nodes):
        s, k = self.val(args[0]), self.val(args[1])
        if len(args) == 3:      # ndarray split_at(axis, k)
            return None
        return mk('tup', seqslice(s, I(0), k), seqslice(s, k, length(s)))

    def m_last(self, args, n, nodes):
        s = self.iter_of(args[0])
        nn = length(s)
        return opt(lt(I(0), nn), at(s, sub(nn, I(1))))

    def m_first(self, args, n, nodes):
        s = self.iter_of(args[0])
        return opt(lt(I(0), length(s)), at(s, I(0)))

    def m_next(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        v = self.val(r)
        if v.op == 'struct':
            return None
        if v.op == 'lazy':
            return some(self.val(self.lazies[v.a[0]](I(0))))
        s = self.iter_of(v)
        nn = length(s)
        self.write(r.a[0], r.a[1], seqslice(s, I(1), nn))
        self.event('next', n, nn)
        return opt(TRUE if nn is INF else lt(I(0), nn), at(s, I(0)))

    def m_next_back(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        s = self.iter_of(self.val(r))
        nn = length(s)
        self.write(r.a[0], r.a[1], seqslice(s, I(0), sub(nn, I(1))))
        return opt(lt(I(0), nn), at(s, sub(nn, I(1))))

    def m_nth(self, args, n, nodes):
        r = args[0]
        s = self.iter_of(self.val(r))
        k = self.val(args[1])
        nn = length(s)
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], seqslice(s, add(k, I(1)), nn))
        return opt(lt(k, nn), at(s, k))

    def m_peekable(self, args, n, nodes):
        return self.iter_of(args[0])

    def m_push(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        t = self.rty(nodes)
        s = self.val(r)
        if is_nd(t):
            ax = axis_of(self.val(args[1]))
            x = self.val(args[2])
            return self.nd_append(r, s, ax, x, rank(t), True)
        if base_ty(t).startswith('json'):
            self.write(r.a[0], r.a[1], cat(s, one(self.val(args[1]))))
            return res(TRUE, UNIT, NOTHING)
        if base_ty(t).startswith('std::string'):
            return None
        v = args[1]
        v = self.val(v) if v.op == 'ref' and not self.rty(nodes, 1).startswith('&mut') else v
        self.write(r.a[0], r.a[1], cat(s, one(v)))
        return UNIT

    m_push_back = m_push

    def m_push_front(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], cat(one(self.val(args[1])), self.val(r)))
            return UNIT

    def nd_append(self, r, s, ax, x, rk, lower):
        """push (lower: x has one axis less) / append along axis."""
        if ax is None:
            return None
        if ax == 0:
            self.write(r.a[0], r.a[1], cat(s, one(x) if lower else x))
            return res(TRUE, UNIT, NOTHING)
        if ax == 1:
            nn = length(s)
            if nn.op == 'int' and nn.a[0] <= 8:
                out = lst(*[cat(at(s, I(i)), one(at(x, I(i))) if lower else at(x, I(i))) for i in range(nn.a[0])])
            else:
                w = fresh(nn)
                out = arr(nn, w, cat(at(s, w), one(at(x, w)) if lower else at(x, w)))
            self.write(r.a[0], r.a[1], out)
            return res(TRUE, UNIT, NOTHING)
        return None

    def m_push_column(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            return self.nd_append(r, self.val(r), 1, self.val(args[1]), 2, True)

    def m_push_row(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            return self.nd_append(r, self.val(r), 0, self.val(args[1]), 2, True)

    def m_append(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        if is_nd(self.rty(nodes)):
            return self.nd_append(r, self.val(r), axis_of(self.val(args[1])), self.val(args[2]), rank(self.rty(nodes)), False)
        o = self.val(args[1])
        self.write(r.a[0], r.a[1], cat(self.val(r), o))
        if args[1].op == 'ref':
            self.write(args[1].a[0], args[1].a[1], EMPTY)
        return UNIT

    def m_extend(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.items(args, nodes, 1)
            bt = base_ty(self.rty(nodes))
            if bt.startswith('std::collections::Hash'):
                m = self.val(r)
                self.write(r.a[0], r.a[1], mk('map', cat(m.a[0] if m.op == 'map' else one(mk('base', m)), s)))
                return UNIT
            self.write(r.a[0], r.a[1], cat(self.val(r), s))
            return UNIT
    m_extend_from_slice = m_extend

    def m_pop(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        s = self.val(r)
        nn = length(s)
        t = seqslice(s, I(0), sub(nn, I(1)))
        self.write(r.a[0], r.a[1], ite(lt(I(0), nn), t, s))
        self.event('pop', n, nn)
        return opt(lt(I(0), nn), at(s, sub(nn, I(1))))
    m_pop_back = m_pop

    def m_pop_front(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        s = self.val(r)
        nn = length(s)
        t = seqslice(s, I(1), nn)
        self.write(r.a[0], r.a[1], ite(lt(I(0), nn), t, s))
        self.event('popfront', n, s, nn)
        return opt(lt(I(0), nn), at(s, I(0)))

    def m_front(self, args, n, nodes):
        s = self.val(args[0])
        return opt(lt(I(0), length(s)), at(s, I(0)))

    def m_drain(self, args, n, nodes):
        r = args[0]
        if r.op != 'ref':
            return None
        s = self.val(r)
        if s.op == 'map':
            return None
        g = self.val(args[1])
        if g.op != 'range':
            if g.op == 'rangefull':
                self.write(r.a[0], r.a[1], EMPTY)
                return s
            return None
        nn = length(s)
        lo = g.a[0]
        hi = nn if g.a[1] is NOTHING else g.a[1]
        self.event('drain', n, s, lo, hi, nn)
        self.write(r.a[0], r.a[1], cat(seqslice(s, I(0), lo), seqslice(s, hi, nn)))
        return seqslice(s, lo, hi)

    def m_range(self, args, n, nodes):
        # a view of part of a double-ended queue
        s, g = self.val(args[0]), self.val(args[1]) if len(args) == 2 else None
        if g is None or not base_ty(self.rty(nodes)).startswith('std::collections::VecDeque'):
            return None
        if g.op == 'rangefull':
            return s
        if g.op == 'range':
            return seqslice(s, g.a[0], length(s) if g.a[1] is NOTHING else g.a[1])

    def m_split_off(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.val(r)
            k = self.val(args[1])
            self.write(r.a[0], r.a[1], seqslice(s, I(0), k))
            return seqslice(s, k, length(s))

    def m_truncate(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.val(r)
            k = self.val(args[1])
            nn = length(s)
            self.event('truncate', n, s, k, nn)
            m = imin(k, nn)
            self.write(r.a[0], r.a[1], seqslice(s, I(0), m))
            return UNIT

    def m_resize(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref' and len(args) == 3:
            s = self.val(r)
            k = self.val(args[1])
            nn = length(s)
            x = self.val(args[2])
            m = imin(k, nn)
            w = fresh(sub(k, m))
            self.write(r.a[0], r.a[1], cat(seqslice(s, I(0), m), arr(sub(k, m), w, x)))
            return UNIT

    def m_clear(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], mk('map', EMPTY) if self.val(r).op == 'map' else EMPTY)
            return UNIT

    def m_swap(self, args, n, nodes):
        if len(args) == 2:
            a, b = self.val(args[0]), self.val(args[1])
            if args[0].op == 'ref' and args[1].op == 'ref':
                self.write(args[0].a[0], args[0].a[1], b)
                self.write(args[1].a[0], args[1].a[1], a)
                return UNIT

    def f_std__mem__take(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            v = self.val(r)
            self.write(r.a[0], r.a[1], mk('map', EMPTY) if v.op == 'map' else EMPTY)
            return v

    def f_std__mem__replace(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            v = self.val(r)
            self.write(r.a[0], r.a[1], self.val(args[1]))
            return v

    def f_std__mem__drop(self, args, n, nodes):
        return UNIT
    f_core__mem__drop = f_std__mem__drop

    def m_with_capacity(self, args, n, nodes):
        return self.default_of(self.ty(n))

    def m_new(self, args, n, nodes):
        t = base_ty(self.ty(n))
        if t.startswith(('std::vec::Vec', 'std::collections::', 'std::string::String')):
            return self.default_of(self.ty(n))
        nm = self.callee(n)
        if nm in ('std::sync::Arc::new', 'std::boxed::Box::new', 'std::rc::Rc::new'):
            return self.val(args[0])
        if nm.endswith(('RwLock::new', 'Mutex::new', 'RefCell::new', 'Cell::new')):
            v = self.val(args[0])
            if not self.reactive:
                return mk('cell', self.alloc(v))
            # the same cell each time the statement is analysed again
            k = (self.pathkey(), self.loc(n))
            a = self.cellat.get(k)
            if a is None:
                a = self.cellat[k] = self.alloc(v)
            self.store[a] = v
            return mk('cell', a, *self.lvars())
        if nm.endswith('Sha256::new') or nm == 'sha2::Digest::new':
            return mk('hasher', EMPTY)
        return None

    def callee(self, n):
        f = n.get('f') or n
        return strip(f.get('def', ''))

    def m_box_assume_init_into_vec_unsafe(self, args, n, nodes):
        return self.val(args[0])

    def m_write_box_via_move(self, args, n, nodes):
        return self.val(args[1])

    def m_new_uninit(self, args, n, nodes):
        return NOTHING

    def m_from_elem(self, args, n, nodes):
        nm = self.callee(n)
        if nm.startswith('ndarray'):
            sh = shape_list(self.val(args[0]))
            return self.fill(sh, self.val(args[1]))
        v, k = self.val(args[0]), self.val(args[1])
        return self.fill([k], v)

    def fill(self, sh, v):
        for k in reversed(sh):
            w = fresh(k)
            v = mk('arr', k, 1 + v.hb, v)
        return v

    def m_zeros(self, args, n, nodes):
        sh = shape_list(self.val(args[0]))
        return self.fill(sh, GZERO if nd_gf(self.ty(n)) else I(0))

    def m_ones(self, args, n, nodes):
        sh = shape_list(self.val(args[0]))
        return self.fill(sh, GONE if nd_gf(self.ty(n)) else I(1))

    def m_eye(self, args, n, nodes):
        k = self.val(args[0])
        v, w = fresh(k), fresh(k)
        o, z = (GONE, GZERO) if nd_gf(self.ty(n)) else (I(1), I(0))
        return arr(k, v, arr(k, w, ite(eq0(sub(v, w)), o, z)))

    def m_repeat(self, args, n, nodes):
        w = fresh(INF)
        v = self.val(args[0])
        if len(args) == 1:
            return mk('arr', INF, 1 + v.hb, v)

    def m_repeat_n(self, args, n, nodes):
        return self.fill([self.val(args[1])], self.val(args[0]))

    def m_once(self, args, n, nodes):
        return one(self.val(args[0]))

    def m_empty(self, args, n, nodes):
        return EMPTY

    def m_repeat_with(self, args, n, nodes):
        f = args[0]
        return self.mklazy(lambda i: self.val(self.call_val(f, [], n)))

    def m_from_fn(self, args, n, nodes):
        f = args[0]
        nm = self.callee(n)
        if 'array' in nm:
            m = re.search(r'; (\w+)\]$', self.ty(n))
            k = None
            if m:
                k = I(int(m.group(1))) if m.group(1).isdigit() else self.fr.consts.get(m.group(1)) or atom('const ' + m.group(1), 'usize')
            if k is None:
                return None
            r, v, _ = self.run_loop(k, lambda i: self.val(self.call_val(f, [i], n)))
            return lst(*r) if v is None else arr(k, v, r)
        def g(i):
            o = self.val(self.call_val(f, [], n))
            if is_some(o) is not TRUE:
                return self.unk('from_fn-stops', n)
            return opt_val(o)
        return self.mklazy(g)

    def m_sort_unstable(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], mk('sorted', self.val(r)))
            return UNIT
    m_sort = m_sort_unstable

    def sort_with(self, r, n, keyf, tag):
        s = self.val(r)
        self.write(r.a[0], r.a[1], mk('sortby', s, tag))
        return UNIT

    def m_sort_by(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.val(r)
            x, y = mk('elemof', s, 0), mk('elemof', s, 1)
            if s in TY:
                pass
            o = self.val(self.call_val(args[1], [x, y], n))
            self.event('sort', n, s, o)
            # key function when the comparison is of the form key(x).cmp(key(y))
            self.write(r.a[0], r.a[1], mk('sortby', s, o, S('stable' if 'unstable' not in n.get('m', '') else 'unstable')))
            return UNIT
    m_sort_unstable_by = m_sort_by

    def m_sort_by_key(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.val(r)
            kx = self.val(self.call_val(args[1], [mk('elemof', s, 0)], n))
            ky = self.val(self.call_val(args[1], [mk('elemof', s, 1)], n))
            o = mk('ordering', kx, ky)
            self.event('sort', n, s, o)
            self.write(r.a[0], r.a[1], mk('sortby', s, o, S('stable' if 'unstable' not in n.get('m', '') else 'unstable')))
            return UNIT
    m_sort_unstable_by_key = m_sort_by_cached_key = m_sort_by_key

    def m_dedup(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.val(r)
            self.write(r.a[0], r.a[1], mk('uniq', s.a[0]) if s.op == 'sorted' else self.runs(s, s))
            return UNIT

    def runs(self, s, keys):
        """The first element of each run of equal keys."""
        v = fresh(length(s))
        new = bor(eq0(v), bnot(eqt(at(keys, v), at(keys, sub(v, I(1))))))
        return flat(arr(length(s), v, ite(new, one(at(s, v)), EMPTY)))

    def m_dedup_by_key(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            s = self.val(r)
            keys = self.for_seq(s, lambda e: self.val(self.call_val(args[1], [e], n)))
            if keys is not None:
                self.write(r.a[0], r.a[1], self.runs(s, keys))
                return UNIT

    def m_retain(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref' and base_ty(self.rty(nodes)).startswith(('std::vec::Vec', 'std::collections::VecDeque')):
            self.write(r.a[0], r.a[1], self.m_filter([self.val(r), args[1]], n, nodes))
            return UNIT

    # ------------------------------------------------------------ ndarray
    def m_from_vec(self, args, n, nodes):
        return self.val(args[0])

    def m_from_iter(self, args, n, nodes):
        s = self.items(args, nodes, 0)
        t = base_ty(self.ty(n))
        if t.startswith('std::collections::Hash'):
            return mk('map', s)
        return s

    def m_from_shape_vec(self, args, n, nodes):
        sh = shape_list(self.val(args[0]))
        if len(sh) == 1 and sh[0].op not in ('int',):
            # a shape held in an opaque value
            r = rank(self.ty(n))
            m = re.search(r'Result<(ndarray::ArrayBase.*), ndarray', self.ty(n))
            r = rank(m.group(1)) if m else r
            if r > 1:
                sh = [at(sh[0], I(k)) if sh[0].op != 'tup' else sh[0].a[k] for k in range(r)]
        s = self.iter_of(args[1])
        p = I(1)
        for k in sh:
            p = mul(p, k)
        self.event('reshape', n, length(s), p)
        return res(TRUE, unflatten(s, sh), NOTHING)

    def m_into_shape(self, args, n, nodes):
        v = self.val(args[0])
        t = self.rty(nodes)
        sh = shape_list(self.val(args[1]))
        p = I(1)
        for k in sh:
            p = mul(p, k)
        f = nd_flat(v, rank(t))
        self.event('reshape', n, length(f), p)
        return res(TRUE, unflatten(f, sh), NOTHING)
    m_into_shape_with_order = m_to_shape = m_into_shape

    def m_from_shape_simple_fn(self, args, n, nodes):
        sh = shape_list(self.val(args[0]))
        if len(sh) == 1 and rank(self.ty(n)) > 1:
            sh = [field(sh[0], str(k)) for k in range(rank(self.ty(n)))]
        p = I(1)
        for k in sh:
            p = mul(p, k)
        f = args[1]
        r, v, _ = self.run_loop(p, lambda i: self.val(self.call_val(f, [], n)))
        s = lst(*r) if v is None else arr(p, v, r)
        return unflatten(s, sh)

    def m_from_shape_fn(self, args, n, nodes):
        sh = shape_list(self.val(args[0]))
        if len(sh) == 1 and rank(self.ty(n)) > 1:
            sh = [field(sh[0], str(k)) for k in range(rank(self.ty(n)))]
        f = args[1]

        def go(k, idx):
            if k == len(sh):
                return self.val(self.call_val(f, [mk('tup', *idx) if len(idx) > 1 else idx[0]], n))
            r, v, _ = self.run_loop(sh[k], lambda i: go(k + 1, idx + [i]))
            return lst(*r) if v is None else arr(sh[k], v, r)
        return go(0, [])

    def m_slice(self, args, n, nodes):
        v = self.val(args[0])
        sp = self.val(args[1])
        if sp.op != 'slicespec':
            return None
        return self.nd_slice(v, sp)

    def m_slice_mut(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            return mk('ref', r.a[0], r.a[1] + (('nd', self.val(args[1])),))

    def nd_slice(self, v, sp):
        def go(x, els):
            if not els:
                return x
            e = els[0]
            if e.op == 'range':
                lo, hi = e.a
                nn = length(x)
                lo2 = add(nn, lo) if lo.op == 'int' and lo.a[0] < 0 else lo
                h = nn if hi is NOTHING else (add(nn, hi) if hi.op == 'int' and hi.a[0] < 0 else hi)
                y = seqslice(x, lo2, h)
                if len(els) == 1:
                    return y
                m = length(y)
                if m.op == 'int' and m.a[0] <= 8:
                    return lst(*[go(at(y, I(i)), els[1:]) for i in range(m.a[0])])
                if all(z.op == 'rangefull' for z in els[1:]):
                    return y
                w = fresh(m)
                return arr(m, w, go(at(y, w), els[1:]))
            if e.op == 'rangefull':
                if all(z.op == 'rangefull' for z in els[1:]):
                    return x
                m = length(x)
                w = fresh(m)
                return arr(m, w, go(at(x, w), els[1:]))
            return go(at(x, e), els[1:])
        return go(v, list(sp.a))

    def m_new_unchecked(self, args, n, nodes):
        if self.callee(n).startswith('ndarray::SliceInfo'):
            s = self.val(args[0])
            k = length(s).a[0]
            els = []
            for i in range(k):
                x = at(s, I(i))
                if x.op == 'ctor' and x.a[0].endswith('RangeFull'):
                    x = mk('rangefull')
                els.append(x)
            return mk('slicespec', *els)

    def m_next_in_dim(self, args, n, nodes):
        return UNIT
    m_next_out_dim = m_next_in_dim

    def m_index_axis(self, args, n, nodes):
        ax = axis_of(self.val(args[1]))
        if ax is not None:
            return axis_pick(self.val(args[0]), ax, self.val(args[2]))
    m_index_axis_move = m_index_axis

    def m_row(self, args, n, nodes):
        return at(self.val(args[0]), self.val(args[1]))

    def m_column(self, args, n, nodes):
        return axis_pick(self.val(args[0]), 1, self.val(args[1]))

    def m_axis_iter(self, args, n, nodes):
        ax = axis_of(self.val(args[1]))
        if ax is not None:
            return moveaxis_front(self.val(args[0]), ax)
    def m_outer_iter(self, args, n, nodes):
        return self.val(args[0])
    m_rows = m_outer_iter

    def m_columns(self, args, n, nodes):
        return moveaxis_front(self.val(args[0]), 1)

    def m_columns_mut(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            m = dim(self.val(r), 1)
            w = fresh(m)
            return arr(m, w, mk('ref', r.a[0], r.a[1] + (('col', w),)))

    def m_rows_mut(self, args, n, nodes):
        if args[0].op == 'ref':
            return self.refs(args[0], 1)
    m_outer_iter_mut = m_rows_mut

    def m_column_mut(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            return mk('ref', r.a[0], r.a[1] + (('col', self.val(args[1])),))

    def m_row_mut(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            return mk('ref', r.a[0], r.a[1] + (('i', self.val(args[1])),))

    def m_view_mut(self, args, n, nodes):
        return args[0]

    def m_reversed_axes(self, args, n, nodes):
        r = rank(self.rty(nodes))
        v = self.val(args[0])
        if r == 2:
            return self.transp2(v)
    m_t = m_reversed_axes

    def transp2(self, v):
        m, nn = dim(v, 1), dim(v, 0)
        a, b = fresh(m), fresh(nn)
        return arr(m, a, arr(nn, b, at(at(v, b), a)))

    def m_permuted_axes(self, args, n, nodes):
        v = self.val(args[0])
        p = shape_list(self.val(args[1]))
        if not all(x.op == 'int' for x in p):
            return None
        p = [x.a[0] for x in p]
        ds = [dim(v, k) for k in p]
        ws = [fresh(d) for d in ds]
        x = v
        for k in range(len(p)):
            x = at(x, ws[p.index(k)])
        for w, d in zip(reversed(ws), reversed(ds)):
            x = arr(d, w, x)
        return x

    def m_as_standard_layout(self, args, n, nodes):
        return self.val(args[0])

    def m_swap_axes(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            v = self.val(r)
            a, b = self.val(args[1]), self.val(args[2])
            rk = rank(self.rty(nodes))
            if a.op == 'int' and b.op == 'int':
                p = list(range(rk))
                p[a.a[0]], p[b.a[0]] = p[b.a[0]], p[a.a[0]]
                self.write(r.a[0], r.a[1], self.m_permuted_axes([v, lst(*[I(k) for k in p])], n, nodes))
                return UNIT

    def m_remove_axis(self, args, n, nodes):
        ax = axis_of(self.val(args[1]))
        if ax is not None:
            return axis_pick(self.val(args[0]), ax, I(0))

    def m_insert_axis(self, args, n, nodes):
        ax = axis_of(self.val(args[1]))
        v = self.val(args[0])
        if ax == 0:
            return one(v)
        if ax == 1:
            nn = length(v)
            w = fresh(nn)
            return arr(nn, w, one(at(v, w)))

    def m_dot(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        ra, rb = rank(self.rty(nodes, 0)), rank(self.rty(nodes, 1))
        return self.dot(a, b, ra, rb, n)

    def dot(self, a, b, ra, rb, n=None):
        if ra == 1 and rb == 1:
            na, nb = length(a), length(b)
            m = na
            if na.op in ('len', 'dim') and nb.op not in ('len', 'dim'):
                m = nb
            if n is not None and na is not nb:
                self.event('dotlen', n, na, nb)
            if a.op == 'cat' or b.op == 'cat':
                s, o = (a, b) if a.op == 'cat' else (b, a)
                r = GZERO
                off = I(0)
                for g in s.a:
                    k = length(g)
                    r = gadd(r, self.dot(g, seqslice(o, off, add(off, k)), 1, 1))
                    off = add(off, k)
                return r
            if a.op in ('flat', 'slice') or b.op in ('flat', 'slice'):
                pass
            w = fresh(m)
            return gsum(m, w, gmul(at(a, w), at(b, w)))
        if ra == 2 and rb == 1:
            m = length(a)
            return self.seqmap(a, lambda x: self.dot(x, b, 1, 1, n))
        if ra == 2 and rb == 2:
            return self.seqmap(a, lambda x: self.dot(x, b, 1, 2, n))
        if ra == 1 and rb == 2:
            m = dim(b, 1)
            if m.op == 'int' and m.a[0] <= 4:
                return lst(*[self.dot(a, axis_pick(b, 1, I(j)), 1, 1, n) for j in range(m.a[0])])
            w = fresh(m)
            return arr(m, w, self.dot(a, axis_pick(b, 1, w), 1, 1, n))
        return mk('dot', a, b, ra, rb)

    def seqmap(self, s, f):
        if s.op == 'cat':
            return cat(*[self.seqmap(x, f) for x in s.a])
        m = length(s)
        if m.op == 'int' and m.a[0] <= 8:
            return lst(*[f(at(s, I(i))) for i in range(m.a[0])])
        w = fresh(m)
        return arr(m, w, f(at(s, w)))

    def m_sum_axis(self, args, n, nodes):
        v = self.val(args[0])
        ax = axis_of(self.val(args[1]))
        r = rank(self.rty(nodes))
        if ax != 0 and ax is not None:
            v = moveaxis_front(v, ax)
        gf = nd_gf(self.rty(nodes))

        def go(get, rk, shape_src):
            if rk == 0:
                m = length(v)
                if m.op == 'int' and m.a[0] <= 8:
                    x = GZERO if gf else I(0)
                    for i in range(m.a[0]):
                        x = gadd(x, get(at(v, I(i)))) if gf else add(x, get(at(v, I(i))))
                    return x
                w = fresh(m)
                return gsum(m, w, get(at(v, w))) if gf else isum(m, w, get(at(v, w)))
            m = length(shape_src)
            if shape_src.op == 'cat' and m.op != 'int':
                out = []
                off = I(0)
                for g in shape_src.a:
                    k = length(g)
                    w = fresh(k)
                    o = off
                    out.append(arr(k, w, go(lambda x, w=w, o=o: at(get(x), add(o, w)), rk - 1, at(g, w))))
                    off = add(off, k)
                return cat(*out)
            w = fresh(m)
            return arr(m, w, go(lambda x: at(get(x), w), rk - 1, at(shape_src, w)))
        return go(lambda x: x, r - 1, at(v, I(0)))

    def m_broadcast(self, args, n, nodes):
        v = self.val(args[0])
        sh = shape_list(self.val(args[1]))
        r = rank(self.rty(nodes))
        for k in reversed(sh[:len(sh) - r]):
            v = mk('arr', k, 1 + v.hb, v)
        return some(v)

    laid = {}       # arrays that are not in standard layout: value -> elements in the order of the memory

    def m_into_raw_vec(self, args, n, nodes):
        v = self.val(args[0])
        if v in self.laid:
            return self.laid[v]
        return nd_flat(v, rank(self.rty(nodes)))

    def m_into_raw_vec_and_offset(self, args, n, nodes):
        return tup(self.m_into_raw_vec(args, n, nodes), some(I(0)))

    def m_as_slice_memory_order(self, args, n, nodes):
        return some(self.m_into_raw_vec(args, n, nodes))

    def m_select(self, args, n, nodes):
        v = self.val(args[0])
        ax = axis_of(self.val(args[1]))
        idx = self.val(args[2])
        if ax == 0:
            nn = length(idx)
            w = fresh(nn)
            return arr(nn, w, at(v, at(idx, w)))

    def m_concatenate(self, args, n, nodes):
        ax = axis_of(self.val(args[0]))
        s = self.val(args[1])
        k = length(s)
        if ax == 0 and k.op == 'int':
            return res(TRUE, cat(*[at(s, I(i)) for i in range(k.a[0])]), NOTHING)

    def m_stack(self, args, n, nodes):
        ax = axis_of(self.val(args[0]))
        if ax == 0:
            return res(TRUE, self.val(args[1]), NOTHING)

    def m_assign(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref' and is_nd(self.rty(nodes)):
            self.write(r.a[0], r.a[1], self.val(args[1]))
            return UNIT

    def m_fill(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            v = self.val(r)
            x = self.val(args[1])
            rk = max(1, rank(self.rty(nodes)))
            self.write(r.a[0], r.a[1], self.fill([dim(v, k) for k in range(rk)], x))
            return UNIT

    # Zip
    def f_ndarray__Zip__from(self, args, n, nodes):
        return mk('zip', (args[0],), rank(self.rty(nodes)))

    def m_and(self, args, n, nodes):
        z = self.val(args[0])
        if z.op == 'zip':
            return mk('zip', z.a[0] + (args[1],), z.a[1])

    def zip_each(self, z, f, n, collect=False):
        items, rk = z.a

        def idx(x, i):
            if x.op == 'ref':
                return mk('ref', x.a[0], x.a[1] + (('i', i),))
            return at(x, i)

        def go(xs, k):
            if k == 0:
                r = self.call_val(f, list(xs), n)
                return self.val(r) if collect else UNIT
            ls = [length(self.val(x)) for x in xs]
            m = next((q for q in ls if q.op not in ('len', 'dim')), ls[0])
            ref = next((self.val(x) for x in xs if self.val(x).op == 'cat' and length(self.val(x)).op != 'int'), None)
            if ref is not None:
                out = []
                off = I(0)
                for g in ref.a:
                    ln = length(g)
                    o = off
                    r, v, _ = self.run_loop(ln, lambda i, o=o: go([idx(x, add(o, i)) for x in xs], k - 1))
                    if collect:
                        out.append(lst(*r) if v is None else arr(ln, v, r))
                    off = add(off, ln)
                return cat(*out) if collect else UNIT
            r, v, _ = self.run_loop(m, lambda i: go([idx(x, i) for x in xs], k - 1))
            if collect:
                return lst(*r) if v is None else arr(m, v, r)
            return UNIT
        return go(list(items), rk)

    def m_par_for_each(self, args, n, nodes):
        z = self.val(args[0])
        if z.op == 'zip':
            self.zip_each(z, args[1], n)
            return UNIT

    def m_par_map_collect(self, args, n, nodes):
        z = self.val(args[0])
        if z.op == 'zip':
            return self.zip_each(z, args[1], n, True)
    m_map_collect = m_par_map_collect

    def m_par_mapv_inplace(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], self.nd_map(self.val(r), rank(self.rty(nodes)), lambda x: self.call_val(args[1], [x], n)))
            return UNIT
    m_mapv_inplace = m_par_mapv_inplace

    # ------------------------------------------------------------ randomness
    def m_thread_rng(self, args, n, nodes):
        return mk('rng', 'thread')

    def rng_new(self, n, *a):
        r = mk('rng', *a)
        self.event('rngnew', n, r)
        return r

    def rng_copy(self, v, n):
        r = mk('rng', 'copy', v, self.pathkey())
        self.event('rngcopy', n, r)
        return r

    def m_from_seed(self, args, n, nodes):
        return self.rng_new(n, 'seed', self.val(args[0]))

    def m_seed_from_u64(self, args, n, nodes):
        return self.rng_new(n, 'seed64', self.val(args[0]))

    def m_from_entropy(self, args, n, nodes):
        return mk('rng', 'entropy')

    def m_from_rng(self, args, n, nodes):
        g = self.rng_of(args[0])
        if g.op == 'rng':
            return res(TRUE, mk('rng', 'from', g, self.pathkey(), *self.lvars()), NOTHING)

    def f_rand__rngs__mock__StepRng__new(self, args, n, nodes):
        return self.rng_new(n, 'fixed', self.val(args[0]), self.val(args[1]))

    def f_rand__random(self, args, n, nodes):
        return self.rnd(base_ty(self.ty(n)), mk('rng', 'thread'), n)

    def rng_of(self, x):
        g = self.val(x)
        if g.op in ('struct', 'ctor') and str(g.a[0]).endswith('OsRng'):
            return mk('rng', 'os')
        return g

    def rnd(self, kind, rng, n, *extra):
        r = mk('rand', kind, rng, self.pathkey(), *extra, *self.lvars())
        self.event('rand', n, r)
        return r

    def m_rand(self, args, n, nodes):
        if is_gf(self.ty(n)) and len(args) == 1:
            return self.rnd('gf', self.rng_of(args[0]), n)

    def m_gen(self, args, n, nodes):
        t = base_ty(self.ty(n))
        return self.rnd(t, self.rng_of(args[0]), n)

    def m_gen_bool(self, args, n, nodes):
        p = self.val(args[1])
        return self.rnd('bool' if p.op == 'lit' and p.a[1] == '0.5' else 'bern', self.rng_of(args[0]), n)

    def m_gen_range(self, args, n, nodes):
        r = mk('randr', self.val(args[1]), self.rng_of(args[0]), self.pathkey(), *self.lvars())
        self.event('rand', n, r)
        return r

    def f_rand__distributions__Uniform__new(self, args, n, nodes):
        return mk('udist', self.val(args[0]), self.val(args[1]))

    def f_rand__distributions__Uniform__new_inclusive(self, args, n, nodes):
        return mk('udist', self.val(args[0]), add(self.val(args[1]), I(1)))

    def m_sample(self, args, n, nodes):
        a, b = self.val(args[0]), self.val(args[1])
        if b.op in ('udist', 'ite') and a.op == 'rng':
            a, b = b, a
        if a.op == 'udist':
            return self.rnd('uniform', self.rng_of(b), n, a.a[0], a.a[1])
        return None

    # text input: a file is a sequence of lines, a line a sequence of tokens
    def f_std__fs__File__open(self, args, n, nodes):
        self.event('open', n, self.val(args[0]))
        return mk('res', mk('fileok', self.val(args[0])), mk('struct', 'reader', (('file', mk('filelines', self.val(args[0]))), ('pos', I(0)))), mk('ioerr', I(0)))

    def f_std__io__BufReader__new(self, args, n, nodes):
        return self.val(args[0])

    def f_std__io__BufReader__with_capacity(self, args, n, nodes):
        return self.val(args[1])

    def f_std__fs__read_to_string(self, args, n, nodes):
        return mk('res', mk('fileok', self.val(args[0])), mk('text', mk('filelines', self.val(args[0]))), mk('ioerr', I(0)))

    def m_read_line(self, args, n, nodes):
        r, b = args[0], args[1]
        if r.op != 'ref' or b.op != 'ref':
            return None
        v = self.val(r)
        pos = field(v, 'pos')
        self.write(r.a[0], tuple(r.a[1]) + (('f', 'pos'),), add(pos, I(1)))
        old = self.val(b)
        old = EMPTY if old is S('') else text_tokens(old)
        l = at(field(v, 'file'), pos)
        self.write(b.a[0], b.a[1], mk('line', cat(old, l)))
        return res(TRUE, mk('linelen', l), NOTHING)

    def m_lines(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'text':
            s = v.a[0]
            w = fresh(length(s))
            return arr(length(s), w, mk('line', at(s, w)))
        if v.op == 'struct' and v.a[0] == 'reader':
            s = field(v, 'file')
            s = seqslice(s, field(v, 'pos'), length(s))
            w = fresh(length(s))
            return arr(length(s), w, res(TRUE, mk('line', at(s, w)), NOTHING))
        return None

    def m_split_whitespace(self, args, n, nodes):
        v = self.val(args[0])
        if v is S(''):
            return EMPTY
        if v.op == 'text':
            return flat(v.a[0])
        if v.op == 'line':
            return v.a[0]
        return None
    m_split_ascii_whitespace = m_split_whitespace

    def m_trim(self, args, n, nodes):
        return self.val(args[0])
    m_trim_end = m_trim_start = m_as_str = m_trim

    def m_split(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'line' and self.val(args[1]).op in ('lit', 'str') and str(self.val(args[1]).a[-1]) == ' ':
            return v.a[0]
        return None

    def m_parse(self, args, n, nodes):
        v = self.val(args[0])
        m = re.search(r'Result<([iu]\w+),', self.ty(n))
        if m and not (v.op in ('line', 'text')):
            return mk('res', mk('isnum', v, S(m.group(1))), mk('numval', v), mk('parseerr', v))
        return None

    # serde data model
    def m_serialize_tuple(self, args, n, nodes):
        return res(TRUE, mk('struct', 'sertup', (('n', self.val(args[1])), ('items', EMPTY))), NOTHING)

    def m_serialize_element(self, args, n, nodes):
        r = args[0]
        v = self.val(r)
        if r.op != 'ref' or v.op != 'struct' or v.a[0] != 'sertup':
            if r.op == 'ref' and v.op in ('carry', 'ite', 'setf'):
                pass
            elif r.op != 'ref':
                return None
        self.write(r.a[0], tuple(r.a[1]) + (('f', 'items'),), cat(field(v, 'items'), one(self.val(args[1]))))
        return res(TRUE, UNIT, NOTHING)

    def m_end(self, args, n, nodes):
        v = self.val(args[0])
        return res(TRUE, v, NOTHING) if v.op == 'struct' and v.a[0] == 'sertup' else None

    def m_serialize_struct(self, args, n, nodes):
        return res(TRUE, mk('struct', 'sertup', (('n', self.val(args[2])), ('items', EMPTY))), NOTHING)

    def m_serialize_field(self, args, n, nodes):
        return self.m_serialize_element([args[0], args[-1]], n, nodes)

    def m_deserialize_struct(self, args, n, nodes):
        # positional formats: the visitor is given the fields in the order written
        d, t = self.val(args[0]), base_ty(self.ty(nodes[3])).split('<')[0]
        if d.op != 'struct' or d.a[0] != 'sertup':
            return None
        for b in self.p.all:
            if b.get('name') == 'visit_seq' and 'self_ty' in b and base_ty(b['_tys'][b['self_ty']]).split('<')[0] == t:
                r = mk('ref', self.alloc(mk('struct', 'seqaccess', (('rest', field(d, 'items')),))), ())
                return self.call_body(b, [self.val(args[3]), r], {}, self.loc(n))
        return None

    def m_deserialize_tuple(self, args, n, nodes):
        w = NOTHING
        for g in n.get('ga', ()):
            m = re.search(r'math::galois::\w+<(\w+)>', g)
            if m:
                w = self.fr.consts.get(m.group(1)) or (I(int(re.match(r'\d+', m.group(1)).group(0))) if m.group(1)[0].isdigit() else NOTHING)
        return mk('detuple', self.val(args[1]), w)

    def m_next_element(self, args, n, nodes):
        r = args[0]
        v = self.val(r)
        if r.op != 'ref' or v.op != 'struct' or v.a[0] != 'seqaccess':
            return None
        s = field(v, 'rest')
        k = length(s)
        self.write(r.a[0], tuple(r.a[1]) + (('f', 'rest'),), seqslice(s, imin(I(1), k), k))
        return res(TRUE, opt(le(I(1), k), at(s, I(0))) if k is not I(0) else NONE, NOTHING)

    # ------------------------------------------------------------ hashing / serialisation
    def m_hash(self, args, n, nodes):
        if self.callee(n) == 'seahash::hash':
            return mk('seahash', self.val(args[0]))

    def m_update(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            v = self.val(r)
            x = self.val(args[1])
            if v.op == 'hasher':
                self.write(r.a[0], r.a[1], mk('hasher', cat(v.a[0], x)))
                return UNIT

    def m_finalize(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'hasher':
            return mk('sha256', v.a[0])

    def m_serialize(self, args, n, nodes):
        if self.callee(n) == 'bincode::serialize':
            return res(TRUE, mk('ser', self.val(args[0])), NOTHING)
        if self.callee(n) == 'serde::Serialize::serialize':
            return res(TRUE, self.val(args[0]), NOTHING)

    def m_serialized_size(self, args, n, nodes):
        return res(TRUE, mk('sersize', self.val(args[0])), NOTHING)

    def m_deserialize(self, args, n, nodes):
        if self.callee(n) == 'bincode::deserialize':
            x = self.val(args[0])
            d = mk('deser', x) if x.op != 'ser' else x.a[0]
            t = self.ty(n)
            m = re.match(r'std::result::Result<(.*), std::boxed::Box<bincode', t)
            if m and d.op == 'deser':
                TY.setdefault(d, m.group(1))
            return res(mk('deserok', x), d, NOTHING)

    # ------------------------------------------------------------ tasks and channels
    def f_futures_lite__future__zip(self, args, n, nodes):
        return mk('both', *[self.val(x) for x in args])

    def f_tokio__task__JoinSet__new(self, args, n, nodes):
        return EMPTY

    def m_spawn(self, args, n, nodes):
        if len(args) == 2 and 'JoinSet<' in self.rty(nodes) and args[0].op == 'ref':
            h = self.m_spawn(args[1:], n, None)
            if h is not None:
                self.write(args[0].a[0], args[0].a[1], cat(self.val(args[0]), one(h)))
                return mk('aborth', h.a[1])
            return None
        f = self.val(args[0])
        if f.op == 'fut':
            tk = mk('task', self.pathkey(), *self.lvars())
            self.event('spawn', n, f, tk)
            old = self.task
            self.task = old + (tk,)
            pcl = self.pc_local()
            live = self.live
            r = self.run_fut(f)
            self.task = old
            self.live = live
            return mk('joinh', self.val(r), tk)
        if f.op == 'afut':
            tk = mk('task', self.pathkey(), *self.lvars())
            self.event('spawn', n, f, tk)
            return mk('joinh', f.a[1], tk)
        return None
    m_spawn_local = m_spawn

    def m_spawn_blocking(self, args, n, nodes):
        tk = mk('task', self.pathkey(), *self.lvars())
        self.event('spawn', n, self.val(args[0]), tk)
        r = self.val(self.call_val(args[0], [], n))
        return mk('joinh', r, tk)

    def m_block_on(self, args, n, nodes):
        f = self.val(args[1])
        return self.await_(f, n)

    def m_unbounded_channel(self, args, n, nodes):
        k = self.pathkey()
        return mk('tup', mk('tx', k, *self.lvars()), mk('rx', k, *self.lvars()))

    def m_channel(self, args, n, nodes):
        k = self.pathkey()
        return mk('tup', mk('tx', k, *self.lvars()), mk('rx', k, *self.lvars()))

    def m_send(self, args, n, nodes):
        t = base_ty(self.rty(nodes))
        if t.startswith('tokio::sync::'):
            self.event('chansend', n, self.val(args[0]), self.val(args[1]))
            return res(mk('chanok', self.val(args[0])), UNIT, self.val(args[1]))

    def m_recv(self, args, n, nodes):
        t = base_ty(self.rty(nodes))
        if t.startswith('tokio::sync::'):
            rx = self.val(args[0])
            msg = mk('chanmsg', rx, self.loc(n), *self.lvars())
            x = self.expand(msg, self.chan_ty(self.rty(nodes)))
            self.event('chanrecv', n, rx)
            return mk('afut', 'chanrecv', opt(mk('chanopen', rx, self.loc(n), *self.lvars()), x))

    def m_read(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'cell':
            return mk('afut', 'lock', mk('ref', v.a[0], ()))
        if base_ty(self.rty(nodes)).startswith('tokio::sync::RwLock'):
            return mk('afut', 'lock', mk('locked', v))

    def m_write(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'cell':
            return mk('afut', 'lock', mk('ref', v.a[0], ()))
        r = args[0]
        if base_ty(self.rty(nodes)).startswith('tokio::sync::RwLock'):
            # lock held in an opaque value: give it an identity
            a = self.cellof.get(v)
            if a is None:
                a = self.alloc(mk('locked', v))
                self.cellof[v] = a
            return mk('afut', 'lock', mk('ref', a, ()))

    def m_lock(self, args, n, nodes):
        v = self.val(args[0])
        if v.op == 'cell':
            if 'tokio' in base_ty(self.rty(nodes)):
                return mk('afut', 'lock', mk('ref', v.a[0], ()))
            return res(TRUE, mk('ref', v.a[0], ()), NOTHING)

    def m_join_all(self, args, n, nodes):
        s = self.iter_of(args[0])
        return mk('afut', 'join', self.for_seq(s, lambda e: self.await_(e, n)))

    def m_print(self, args, n, nodes):
        return UNIT

    def m__print(self, args, n, nodes):
        self.event('print', n)
        return UNIT
    m__eprint = m__print

    def m_flush(self, args, n, nodes):
        t = base_ty(self.rty(nodes))
        if t.startswith('std::io::'):
            return res(TRUE, UNIT, NOTHING)

    def m_now(self, args, n, nodes):
        if self.callee(n).startswith('std::time'):
            return mk('clock', self.pathkey(), *self.lvars())

    # ------------------------------------------------------------ strings

def sel_ext(self, v, p):
    if p[0] == 'col':
        nn = length(v)
        w = fresh(nn)
        return arr(nn, w, at(at(v, w), p[1]))
    return None


_old_sel = Interp.sel
_old_upd = Interp.upd


def _sel(self, v, p):
    if p[0] == 'col':
        return sel_ext(self, v, p)
    return _old_sel(self, v, p)


def _upd(self, v, path, val):
    if path and path[0][0] == 'col' and v.op != 'ref':
        p, rest = path[0], path[1:]
        inner = self.upd(self.sel(v, p), rest, val) if rest else val
        return colupd(v, p[1], inner)
    return _old_upd(self, v, path, val)


Interp.sel = _sel
Interp.upd = _upd
