from base import *

BSM = C + 'math::binary_super_inv_matrix'


def aborts(it, kinds=('panic', 'unwrap', 'reshape')):
    """Condition under which the analysed code stops with a panic."""
    out = FALSE
    for e in it.events:
        if e.kind not in kinds:
            continue
        if e.kind == 'panic':
            x = e.args[0]
        elif e.kind == 'unwrap':
            x = bnot(e.args[0])
        elif e.kind == 'reshape':
            x = bnot(eq0(sub(e.args[0], e.args[1])))
        x = band(e.pc, x)
        for v, k in reversed(e.loops):
            x = binder('exists', k, v, x) if v in x.fv else band(lt(I(0), k), x)
        out = bor(out, x)
    return out


@prop('C08')
def c08(c):
    p = atom('path', 'std::path::Path')
    with c.part('matrix'):
        m, it = c.call(BSM, [p])
        F = mk('filelines', p)
        rows = length(F)
        tot = mk('len', flat(F))

        def tok(i, j):
            return at(at(F, i), j)

        def bit(t):
            return ite(eqt(t, S('0')), GZERO, GONE)
        fl = flat(A(rows, lambda i: A(length(at(F, i)), lambda j: bit(tok(i, j)))))
        cols = fdiv(length(fl), rows)
        # a rectangular file: every line has the same number of entries
        nc = atom('cols', 'usize')

        def rect(t):
            return transform(t, lambda x: nc if x.op == 'len' and x.a[0].op == 'at' and x.a[0].a[0] is F else None)
        spec = A(nc, lambda i: A(rows, lambda j: bit(tok(j, i))))

        def dom(r, k):
            a, b = r.randrange(1, 5), r.randrange(1, 5)
            f = [[r.choice('01') for _ in range(b)] for _ in range(a)]
            return Env({'@file': f, 'cols': b})
        c.eq('entries', rect(m), spec, dom, c.where(BSM), 'the matrix differs from the file')
        i = fresh(rows)
        j = fresh(length(at(F, i)))
        t = tok(i, j)
        nonbin = binder('exists', rows, i, binder('exists', length(at(F, i)), j, band(bnot(eqt(t, S('0'))), bnot(eqt(t, S('1'))))))
        ragged = bnot(eq0(sub(length(fl), mul(rows, cols))))

        def dom2(r, k):
            e = dom(r, k)
            f = e.params['@file']
            if k % 3 == 1:
                q = r.choice(f)
                q[r.randrange(len(q))] = r.choice(('2', '', '-1', 'x', '00', '10'))
            elif k % 3 == 2 and len(f) > 1:
                f[r.randrange(len(f))].pop()
                if not all(f):
                    f[:] = [['0', '1'], ['1']]
            return e
        ab = aborts(it)
        c.eq('refusal', replace(ab, {mk('fileok', p): TRUE}), bor(nonbin, ragged), dom2, c.where(BSM),
             'a file with other entries or missing entries is not refused, or a proper one is')
