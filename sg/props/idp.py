from base import *

PB = C + 'protocol::ProtocolIDBuilder::'


def next_path(c):
    for x in c.p.bypath:
        if 'ProtocolIDBuilder' in x and x.startswith('<') and x.endswith('std::iter::Iterator>::next'):
            return x
    return PB + 'next'


def step(c, state, it=None):
    it = it or c.interp()
    it.reclim = 12
    r = mk('ref', it.alloc(state), ())
    o, _ = c.call(next_path(c), [r], it=it)
    return o, it.val(r)


@prop('C14')
def c14(c):
    par, num = atom('parent', 'std::vec::Vec<u8>'), atom('num', 'u64')
    FACTS.append(sub(num, I(1)))
    it = c.interp()
    b, _ = c.call(PB + 'new', [par, num], it=it)
    w = c.where(PB + 'new')
    wn = c.where(next_path(c))
    # the summary of the constructor: a counter of some number of bytes, all zero
    fields = dict(b.a[1]) if b.op == 'struct' else {}
    cf = [k for k, v in fields.items() if v.op == 'arr' and v.a[-1] is I(0)]
    proved = False
    if len(cf) == 1 and all(v is par or v is FALSE for k, v in fields.items() if k != cf[0]):
        m = length(fields[cf[0]])
        proved = counter_proof(c, b, cf[0], par, m, num, wn)
    for k in () if proved else (1, 2, 3, 16, 255, 256, 257, 300, 511, 512, 65535, 65536, 65537, 1 << 24, (1 << 24) + 1, (1 << 32) + 1, (1 << 56) + 1):
        sample(c, b, par, num, k, w, wn, full=k <= 600)
    if proved:
        c.ok('a builder returns identifiers until its counter overflows, then none', 'exhaustive cases of the counter')
    elif not c.viols:
        c.undecided('general step', 'representation not recognised, sampled bounds only')


def counter_proof(c, b, cf, par, m, num, wn):
    """Every state of a counter of 1..8 bytes: the bytes before the first that is not 255 are reset, that one is
    incremented, the identifier is parent ++ bytes; from all 255 the builder is exhausted and stays so."""
    ok = True
    cases = 0
    for k in range(1, 9):
        for j in range(k + 1):
            x = [atom('x%d_%d_%d' % (k, j, i), 'u8') for i in range(k)]
            if j < k:
                FACTS.append(sub(I(254), x[j]))
            cur = [I(255)] * j + x[j:]
            st = setfield(b, cf, lst(*cur))
            o, s2 = step(c, st)
            cases += 1
            if o is not some(cat(par, lst(*cur))):
                return False
            if j < k:
                want = setfield(b, cf, lst(*([I(0)] * j + [add(x[j], I(1))] + x[j + 1:])))
                if s2 is not want:
                    return False
            else:
                o2, s3 = step(c, s2)
                if o2 is not opt(FALSE, None) and is_some(o2) is not FALSE:
                    return False
                if s3 is not s2:
                    return False
            if j < k:
                FACTS.pop()
    c.cov['counter_states'] = cases
    # enough bytes: the count depends on num only through ceil(log2 num)
    e = mk('clog2', num)
    q = fresh(I(65))
    mm = replace(m, {e: atom('lg', 'u32')})
    if contains(mm, lambda t: t is num):
        return False
    for lg in range(0, 64):
        v = replace(mm, {atom('lg', 'u32'): I(lg)})
        if v.op != 'int':
            return False
        if 8 * v.a[0] < lg:
            c.bad('enough identifiers', 'too few bytes for 2^%d children' % lg, c.where(PB + 'new'))
            return True
        if not 1 <= v.a[0] <= 8:
            return False
    c.ok('enough identifiers', 'all exponents 0..63')
    return ok


def sample(c, b, par, num, k, w, wn, full):
    name = 'a bound of %d children' % k
    try:
        st = replace(b, {num: I(k), par: lst(I(112))})
        env = Env({})
        seen = set()
        lens = set()
        lim = k if full else 3
        it = c.interp()
        cap = 1000
        o = None
        for i in range(cap if full else lim):
            o, st = step(c, st, it)
            if is_some(o) is FALSE:
                if i < k:
                    c.bad('number of identifiers', 'only %d identifiers for a bound of %d children' % (i, k), w)
                    return
                break
            ids = tuple(ev.as_int(x, env) for x in ev.as_list(evalt(opt_val(o), env), env))
            if ids in seen:
                c.bad('distinct identifiers', 'an identifier is handed out twice (bound %d, request %d)' % (k, i + 1), wn)
                return
            if ids[:1] != (112,):
                c.bad('prefix', 'an identifier does not extend its parent', wn)
                return
            seen.add(ids)
            lens.add(len(ids))
        if len(lens) > 1:
            c.bad('length', 'identifiers of one builder differ in length', wn)
            return
        if full and o is not None and is_some(o) is FALSE:
            for _ in range(3):
                o, st = step(c, st, it)
                if is_some(o) is not FALSE:
                    c.bad('stays exhausted', 'an exhausted builder hands out an identifier again (bound %d)' % k, wn)
                    return
        c.ok(name, 'evaluation of the summaries')
    except (Unknown, Undef, AttributeError, IndexError, TypeError) as e:
        c.undecided(name, repr(e))
