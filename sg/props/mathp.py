from base import *


@prop('C06')
def c06(c):
    cp, np_ = atom('cpos', GFV), atom('npos', GFV)
    code, it = c.call(LAG, [cp, np_])
    m = length(cp)
    w = c.where(LAG)

    def basis(r, j):
        return GP(m, lambda k: ite(eq0(sub(k, j)), GONE,
                                   gmul(gadd(at(np_, r), at(cp, k)), ginv(gadd(at(cp, j), at(cp, k))))))
    spec = A(length(np_), lambda r: A(m, lambda j: basis(r, j)))

    # The same function in barycentric form: the unit row where the new point is a current point,
    # prod_k (x - x_k) / ((x - x_j) * prod_{x_k != x_j} (x_j - x_k)) elsewhere.
    def bary(r):
        v = at(np_, r)

        def den(j):
            return GP(m, lambda k: ite(gfeq(at(cp, k), at(cp, j)), GONE, gadd(at(cp, k), at(cp, j))))
        num = GP(m, lambda k: gadd(v, at(cp, k)))
        k = fresh(m)
        hit = binder('exists', m, k, gfeq(at(cp, k), v))
        pos = binder('posn', m, k, gfeq(at(cp, k), v))
        return ite(hit, updat(A(m, lambda j: GZERO), pos, GONE),
                   A(m, lambda j: gmul(num, ginv(gmul(gadd(v, at(cp, j)), den(j))))))
    alt = A(length(np_), bary)

    def dom(r, k):
        a = distinct(r, 1 if k == 0 else r.randrange(1, 6))
        b = distinct(r, r.randrange(1, 4))
        if k == 3:
            a = distinct(r, 270)
        if k % 4 < 2 and 0 not in a:
            a[r.randrange(len(a))] = 0
        if k % 2:
            b[r.randrange(len(b))] = r.choice(a[-4:])
        return Env({'cpos': a, 'npos': b})
    c.eq('coefficients are the Lagrange basis at the new points', code, spec, dom, w,
         'coefficient matrix does not interpolate', alts=[alt])
    c.eq('one row per new point', length(code), length(np_), dom, w, 'wrong number of rows')


@prop('C07')
def c07(c):
    k, m = atom('mssg_len', 'usize'), atom('code_len', 'usize')
    FACTS.append(sub(k, I(1)))
    FACTS.append(sub(m, I(1)))
    f = C + 'math::rs_gen_mat'
    code, it = c.call(f, [k, m])

    def entry(i, e):
        return GP(e, lambda _: gfint(add(i, I(1))))

    def rs(kk, mm):
        return A(mm, lambda i: A(kk, lambda j: entry(i, add(j, I(1)))))

    def dom(r, t):
        a, b = {0: (1, 1), 1: (2, 300)}.get(t) or (r.randrange(1, 5), r.randrange(1, 6))
        return Env({'mssg_len': a, 'code_len': b, 'num_out': a, 'num_inp': b})
    c.eq('generator entry (i,j) is (i+1)^(j+1)', code, rs(k, m), dom, c.where(f), 'wrong generator matrix',
         proofs=[by_induction(lambda q: A(m, lambda i: A(add(q, I(1)), lambda j: entry(i, add(j, I(1))))))])
    ni, no = atom('num_inp', 'usize'), atom('num_out', 'usize')
    f2 = C + 'math::super_inv_matrix'
    code2, _ = c.call(f2, [ni, no], prims={f: lambda it, a, n: rs(it.val(a[0]), it.val(a[1]))})

    c.eq('super-invertible matrix is the transposed generator', code2, A(no, lambda j: A(ni, lambda i: entry(i, add(j, I(1))))),
         dom, c.where(f2), 'wrong super-invertible matrix')


@prop('C09')
def c09(c):
    M = C + 'math::Combination::'
    mp = atom('map', 'std::vec::Vec<usize>')
    v = atom('v', nd(1, 'usize'))
    it = c.interp()
    me, _ = c.call(M + 'new', [mp], it=it)
    out, _ = c.call(M + 'apply', [me, v], it=it)

    def dom(r, t):
        n = r.randrange(1, 5)
        inp = distinct(r, n, 0, 50)
        return Env({'map': [r.randrange(n) for _ in range(r.randrange(0, 6))], 'v': [100 + r.randrange(1000) for _ in range(n)],
                    'inp': inp, 'out': [r.choice(inp) for _ in range(r.randrange(0, 6))]})
    c.eq('apply picks inp[map[i]]', out, A(length(mp), lambda i: at(v, at(mp, i))), dom, c.where(M + 'apply'), 'selection picks other elements')
    ln, _ = c.call(M + 'len', [me], it=it)
    c.eq('len is the number of outputs', ln, length(mp), dom, c.where(M + 'len'), 'wrong length')
    inp, o = atom('inp', 'std::vec::Vec<u32>'), atom('out', 'std::vec::Vec<u32>')
    it = c.interp()
    me, _ = c.call(M + 'from_instance', [inp, o], it=it)
    got, _ = c.call(M + 'apply', [me, inp], it=it)
    c.eq('inferred selection maps the example input to the example output', got, A(length(o), lambda i: at(o, i)), dom,
         c.where(M + 'from_instance'), 'inferred selection is wrong')
    ln, _ = c.call(M + 'len', [me], it=it)
    c.eq('inferred length', ln, length(o), dom, c.where(M + 'from_instance'), 'wrong length')
