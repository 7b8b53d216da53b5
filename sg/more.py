"""Further library models: options, numbers, slices and arrays."""
import lib
from lib import *
from interp import updat

SEQS = ('std::vec::Vec', 'std::collections::VecDeque', '[')


def isopt(it, nodes):
    return 'Option<' in base_ty(it.rty(nodes))[:30]


class More:
    # ------------------------------------------------------------ options
    def pick(self, args, n, nodes, yes, no):
        v = self.val(args[0])
        o = isopt(self, nodes)
        x = opt_val(v) if o else ok_val(v)
        return self.branch(is_some(v) if o else is_ok(v), lambda: self.val(self.call_val(yes, [x], n)),
                           lambda: no([] if o else [err_val(v)]))

    def m_map_or(self, args, n, nodes):
        d = self.val(args[1])
        return self.pick(args, n, nodes, args[2], lambda e: d)

    def m_map_or_else(self, args, n, nodes):
        return self.pick(args, n, nodes, args[2], lambda e: self.val(self.call_val(args[1], e, n)))

    def m_is_some_and(self, args, n, nodes):
        return self.pick(args, n, nodes, args[1], lambda e: FALSE)

    m_is_ok_and = m_is_some_and

    def m_is_none_or(self, args, n, nodes):
        return self.pick(args, n, nodes, args[1], lambda e: TRUE)

    def m_or_else(self, args, n, nodes):
        if isopt(self, nodes):
            v = self.val(args[0])
            return self.branch(is_some(v), lambda: v, lambda: self.val(self.call_val(args[1], [], n)))

    # ------------------------------------------------------------ numbers
    def m_clamp(self, args, n, nodes):
        x, lo, hi = map(self.val, args)
        return imax(lo, imin(x, hi))

    def m_next_multiple_of(self, args, n, nodes):
        a, b = map(self.val, args)
        return mul(ceildiv(a, b), b)

    def m_rem_euclid(self, args, n, nodes):
        if base_ty(self.rty(nodes)).startswith('u'):
            return fmod(*map(self.val, args))

    def m_div_euclid(self, args, n, nodes):
        if base_ty(self.rty(nodes)).startswith('u'):
            return fdiv(*map(self.val, args))

    def limit(self, nodes):
        t = base_ty(self.rty(nodes))
        return I((1 << BITS.get(t, 64)) - 1) if t.startswith('u') else None

    def m_checked_mul(self, args, n, nodes):
        m, x = self.limit(nodes), mul(*map(self.val, args))
        return None if m is None else opt(le(x, m), x)

    def m_saturating_add(self, args, n, nodes):
        m, x = self.limit(nodes), add(*map(self.val, args))
        return None if m is None else imin(x, m)

    def m_saturating_mul(self, args, n, nodes):
        m, x = self.limit(nodes), mul(*map(self.val, args))
        return None if m is None else imin(x, m)

    # ------------------------------------------------------------ sequences
    def m_find_map(self, args, n, nodes):
        s = self.take_iter(args[0])
        nn = length(s)
        w = fresh(nn)
        r = self.val(self.call_val(args[1], [at(s, w)], n))
        c = is_some(r)
        p = binder('posn', nn, w, c)
        return opt(binder('exists', nn, w, c), replace(opt_val(r), {w: p}))

    def prefix(self, args, n):
        s = self.take_iter(args[0])
        nn = length(s)
        if s.op == 'lazy' or nn is INF:
            return None, None
        w = fresh(nn)
        c = bnot(self.val(self.call_val(args[1], [at(s, w)], n)))
        return s, ite(binder('exists', nn, w, c), binder('posn', nn, w, c), nn)

    def m_take_while(self, args, n, nodes):
        s, k = self.prefix(args, n)
        return None if s is None else seqslice(s, I(0), k)

    def m_skip_while(self, args, n, nodes):
        s, k = self.prefix(args, n)
        return None if s is None else seqslice(s, k, length(s))

    def m_concat(self, args, n, nodes):
        if 'Vec<' in base_ty(self.ty(n))[:20]:
            return flat(self.iter_of(args[0]))

    def m_into_vec(self, args, n, nodes):
        return self.val(args[0])

    def m_split_first(self, args, n, nodes):
        s = self.val(args[0])
        return opt(lt(I(0), length(s)), mk('tup', at(s, I(0)), seqslice(s, I(1), length(s))))

    def m_split_last(self, args, n, nodes):
        s = self.val(args[0])
        k = sub(length(s), I(1))
        return opt(lt(I(0), length(s)), mk('tup', at(s, k), seqslice(s, I(0), k)))

    def m_back(self, args, n, nodes):
        s = self.val(args[0])
        return opt(lt(I(0), length(s)), at(s, sub(length(s), I(1))))

    def inplace(self, args, nodes):
        r = args[0]
        return self.val(r) if r.op == 'ref' and base_ty(self.rty(nodes)).startswith(SEQS) else None

    def m_swap(self, args, n, nodes):
        if len(args) != 3:
            return lib.Lib.std_swap(self, args, n, nodes)
        s = self.inplace(args, nodes)
        if s is not None:
            i, j = self.val(args[1]), self.val(args[2])
            self.write(args[0].a[0], args[0].a[1], updat(updat(s, i, at(s, j)), j, at(s, i)))
            return UNIT

    def m_swap_remove(self, args, n, nodes):
        s = self.inplace(args, nodes)
        if s is not None and base_ty(self.rty(nodes)).startswith('std::vec::Vec'):
            i, k = self.val(args[1]), sub(length(s), I(1))
            self.write(args[0].a[0], args[0].a[1], seqslice(updat(s, i, at(s, k)), I(0), k))
            return at(s, i)

    def rotate(self, args, nodes, left):
        s = self.inplace(args, nodes)
        if s is not None:
            k = self.val(args[1])
            k = k if left else sub(length(s), k)
            self.write(args[0].a[0], args[0].a[1], cat(seqslice(s, k, length(s)), seqslice(s, I(0), k)))
            return UNIT

    def m_rotate_left(self, args, n, nodes):
        return self.rotate(args, nodes, True)

    def m_rotate_right(self, args, n, nodes):
        return self.rotate(args, nodes, False)

    def m_copy_from_slice(self, args, n, nodes):
        if args[0].op == 'ref' and not is_nd(self.rty(nodes)):
            self.write(args[0].a[0], args[0].a[1], self.val(args[1]))
            return UNIT

    m_clone_from_slice = m_copy_from_slice

    def m_as_mut_slice(self, args, n, nodes):
        if args[0].op == 'ref' and not is_nd(self.rty(nodes)):
            return args[0]

    def m_as_slice_mut(self, args, n, nodes):
        if args[0].op == 'ref' and rank(self.rty(nodes)) == 1:
            return some(args[0])

    # ------------------------------------------------------------ arrays
    def m_indexed_iter(self, args, n, nodes):
        v, k = self.val(args[0]), rank(self.rty(nodes))
        if k == 1:
            w = fresh(length(v))
            return arr(length(v), w, mk('tup', w, at(v, w)))
        if k == 2:
            w = fresh(length(v))
            u = fresh(length(at(v, w)))
            return flat(arr(length(v), w, arr(length(at(v, w)), u, mk('tup', mk('tup', w, u), at(at(v, w), u)))))

    def m_axis_iter_mut(self, args, n, nodes):
        ax, k = axis_of(self.val(args[1])), rank(self.rty(nodes))
        if args[0].op == 'ref' and ax == 0:
            return self.refs(args[0], 1)
        if args[0].op == 'ref' and ax == 1 and k == 2:
            return self.m_columns_mut(args[:1], n, nodes)

    def m_index_axis_mut(self, args, n, nodes):
        r, ax, k = args[0], axis_of(self.val(args[1])), rank(self.rty(nodes))
        if r.op == 'ref' and (ax == 0 or ax == 1 and k == 2):
            return mk('ref', r.a[0], r.a[1] + (('i' if ax == 0 else 'col', self.val(args[2])),))

    def m_zip_mut_with(self, args, n, nodes):
        k = rank(self.rty(nodes))
        if args[0].op == 'ref' and rank(self.rty(nodes, 1)) == k:
            s = self.zip2(self.refs(args[0], k), nd_flat(self.val(args[1]), k))
            self.for_seq(s, lambda e: (self.call_val(args[2], [field(e, '0'), field(e, '1')], n), UNIT)[1])
            return UNIT


lib.Lib.std_swap = lib.Lib.m_swap
for k, f in vars(More).items():
    if not k.startswith('__'):
        if hasattr(lib.Lib, k) and k != 'm_swap':
            raise ImportError(k)
        setattr(lib.Lib, k, f)
for k in ('m_find_any', 'm_find_first'):
    setattr(lib.Lib, k, lib.Lib.m_find)
