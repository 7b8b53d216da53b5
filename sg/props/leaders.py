"""Part of C24: the leaders that garbling and preprocessing name for their sub-protocols."""
from garblep import *
import preprocp


def named(e, n):
    """Leader of an event, when it is shown to be a party: None, a remainder modulo n, or a counter below n."""
    ld = e.args[-1] if e.kind != 'proto' else e.args[2]
    if is_some(ld) is FALSE:
        return True
    if is_some(ld) is not TRUE:
        return False
    v = opt_val(ld)
    if v.op == 'mod' and v.a[1] is n:
        return True
    if v.op == 'int' and v.a[0] == 0:
        return True
    for x, b in e.loops:
        if v is x and (b is n or b is sub(n, I(1))):
            return True
    return v is sub(n, I(1))


def given(c):
    with c.part('garbling'):
        g = gar(c)
        evs = [e for e in g.evs if e.kind in ('trans', 'mult')]
        if not evs:
            return c.undecided('garbling: leaders', 'no sub-protocol found')

        def trial(r, k):
            i = g.inst(r, k)
            return agreed(seqs, i.n, i.p['me'], lambda me: Env({**i.p, 'me': me}, seed=i.seed), i.p)
        seqs = [loopseq(e, tup(e.args[-1])) for e in evs]
        shown(c, 'garbling: leaders', evs, seqs, g.x, trial, g.w)
    with c.part('preprocessing'):
        x, it, m, dom, ks, pid = preprocp.preproc_all(c)
        es = [e for e in it.events if e.kind == 'proto' and e.args[0] is S('mult')]
        if not es:
            return c.undecided('preprocessing: leaders', 'no sub-protocol found')
        ss = [loopseq(e, tup(e.args[2])) for e in es]

        def trial2(r, k):
            env = dom(r, k)
            return agreed(ss, env.params['n'], env.params['me'], lambda me: Env({**env.params, 'me': me}, seed=env.seed), env.params)
        shown(c, 'preprocessing: leaders', es, ss, x, trial2, c.where(PP + 'preproc'))


def shown(c, name, evs, seqs, x, trial, w):
    ok = all(named(e, x.n) for e in evs) and not any(x.id in subterms(t) for t in seqs)
    c.hunt(name, seqs, trial, w, None,
           'the leaders named at %d places are remainders or counters below the number of parties, whoever computes them' % len(evs) if ok else None,
           n=100)


def agreed(seqs, n, me, env, p):
    for s in seqs:
        mine = [optval(y[0]) for y in ev._seq(s, env(me), {})]
        for y in mine:
            if y is not None and not 0 <= y < n:
                return 'party number %d of %d is named as leader' % (y, n), p
        for q in (0, n - 1):
            if [optval(y[0]) for y in ev._seq(s, env(q), {})] != mine:
                return 'parties %d and %d name different leaders' % (me, q), p
