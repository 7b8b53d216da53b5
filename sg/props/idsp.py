"""Identifiers of sub-protocols (C15)."""
from math import gcd
from garblep import *

KINDS = {'proto': 1, 'mult': 0, 'trans': 0, 'randtrans': 0, 'send': 0, 'recv': 0, 'recveach': 0}


def chain(t):
    """Root and child numbers of an identifier."""
    k = []
    while t.op == 'child':
        k.append(t.a[1])
        t = t.a[0]
    return t, list(reversed(k))


def ids_of(it):
    """Identifiers under which something is communicated: (identifier, event)."""
    out = []
    for e in it.events:
        if e.kind in KINDS:
            t = e.args[KINDS[e.kind]]
            if e.kind == 'send':
                t = field(t, 'proto_id')
            out.append((t, e))
    return out


def rename(t, e):
    m = {v: fresh(b) for v, b in e.loops}
    return replace(t, m), replace(e.pc, m), m


def never_equal(t1, e1, t2, e2):
    """Can the identifiers of two sub-protocol runs be shown to differ (or to belong to the same run)?"""
    same = e1 is e2
    r1, k1 = chain(t1)
    u, pc2, m = rename(t2, e2)
    r2, k2 = chain(u)
    if len(k1) != len(k2):
        return r1 is r2
    if r1 is not r2:
        return False
    eqs = []
    for a, b in zip(k1, k2):
        d = sub(a, b)
        if nonneg(sub(d, I(1))) or nonneg(sub(I(-1), d)):
            return True
        p = poly(d)
        c0 = p.pop((), 0)
        q = 0
        for v in p.values():
            q = gcd(q, v)
        if q and c0 % q:
            return True
        eqs.append((a, b))
    # the numbers are equal only if loop variables agree
    s = {}
    for a, b in eqs:
        d = replace(sub(a, b), s)
        if d.op == 'int':
            if d.a[0]:
                return True
            continue
        p = poly(d)
        q = 0
        for v in p.values():
            q = gcd(q, v)
        p = {m_: v // q for m_, v in p.items()}
        d = terms.unpoly(p)
        done = False
        for v in set(m.values()):
            if p.get((v,)) in (1, -1) and not any(v in x.fv for mm in p if mm != (v,) for x in mm):
                val = add(v, d) if p[(v,)] == -1 else sub(v, d)
                s = {k: replace(x, {v: val}) for k, x in s.items()}
                s[v] = val
                done = True
                break
        if not done:
            return False
    if band(e1.pc, replace(pc2, s)) is FALSE:
        return True
    if same:
        return all(replace(m[v], s) is v for v, _ in e1.loops)
    return False


def nonneg(t):
    return terms.nonneg(t)


def public(t):
    return {x.a[0] for x in subterms(t) if x.op == 'param'}


@prop('C15')
def c15(c):
    with c.part('garbling'):
        g = gar(c)
        protocol(c, 'garbling', g.it, g.w, lambda r, k: g.inst(r, k).env())
    with c.part('preprocessing'):
        x, it, m, dom, ks, pid = preproc_all(c)
        protocol(c, 'preprocessing', it, c.where(PP + 'preproc'), dom)


def protocol(c, name, it, w, dom):
    ids = ids_of(it)
    if len(ids) < 3:
        c.undecided(name, 'only %d sub-protocols found' % len(ids))
        return
    ok = all(never_equal(t1, e1, t2, e2) for i, (t1, e1) in enumerate(ids) for t2, e2 in ids[i:])
    seqs = [(e, loopseq(e, t)) for t, e in ids]

    def listing(env):
        out = []
        for e, s in seqs:
            out += [(ev.canon(v), e) for v in ev._seq(s, env, {})]
        return out

    def trial(r, k):
        env = dom(r, k)
        seen = {}
        for v, e in listing(env):
            if v in seen:
                o = seen[v]
                return 'identifier used by two sub-protocols: %s at %s and %s at %s' % (
                    o.kind, o.loc, e.kind, e.loc), env.params
            seen[v] = e
    c.hunt(name + ': distinct', [s for _, s in seqs], trial, w, proved=ok and
           'every two of the %d identifier forms differ for all iterations' % len(ids))
    # builders
    ch = [e for e in it.events if e.kind == 'child']
    if not ch:
        c.undecided(name, 'no child identifiers found')
        return
    ok = all(terms.nonneg(sub(sub(e.args[2], I(1)), e.args[1])) for e in ch)
    cs = [(e, loopseq(e, tup(e.args[1], e.args[2]))) for e in ch]

    def trial2(r, k):
        env = dom(r, k)
        for e, s in cs:
            for a, m in ev._seq(s, env, {}):
                if a >= m:
                    return 'child number %d is drawn from a builder made for %d at %s' % (a, m, e.loc), env.params
    c.hunt(name + ': builder sizes', [s for _, s in cs], trial2, w, proved=ok and
           'child number below the declared maximum at all %d draws' % len(ch))
    # the same at all parties
    priv = {'me', 'masks', 'keys', 'rnds', 'zs', 'errs'}
    ok = not any(public(s) & priv or any(y.op in ('trsh', 'gmsh', 'rtsh', 'rand', 'shares') for y in subterms(s))
                 for _, s in seqs)

    def trial3(r, k):
        env = dom(r, k)
        a = [v for v, _ in listing(env)]
        for me in range(env.params['n']):
            e2 = Env({**env.params, 'me': me}, seed=env.seed)
            e2.trsh, e2.gmsh = {}, {}
            if [v for v, _ in listing(e2)] != a:
                return 'parties number their sub-protocols differently', env.params
    c.hunt(name + ': same at all parties', [s for _, s in seqs], trial3, w, proved=ok and
           'no identifier depends on the own number, shares or randomness')
