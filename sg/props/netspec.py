"""Contracts of the communication primitives and the comparison of what a protocol sends."""
from base import *

PH = C + 'protocol::ProtoHandle::'
NW = C + 'protocol::network::'
MSG = NW + 'SendMessage'
ONE = NW + 'Recipient::One'
ALL = NW + 'Recipient::All'
NETTY = C + 'protocol::ProtoHandle<%sSendMessage, %sReceivedMessage>' % (NW, NW)
IDTY = 'std::vec::Vec<u8>'


def p_send(it, args, n):
    it.event('send', n, it.val(args[0]), it.val(args[1]))
    return UNIT


def p_recv(it, args, n):
    i = it.val(args[1])
    k = it.recvs = getattr(it, 'recvs', {})
    k[i] = k.get(i, -1) + 1
    m = mk('recvd', i, I(k[i]), *it.lvars())
    TY[m] = NW + 'ReceivedMessage'
    it.event('recv', n, i, m)
    return mk('afut', 'msg', m)


def p_each(it, args, n):
    i, nn = it.val(args[0]), it.val(args[2])
    it.event('recveach', n, i, nn)
    return mk('afut', 'msgs', A(nn, lambda p: mk('msgp', i, p)))


NETP = {PH + 'send': p_send, PH + 'recv': p_recv, NW + 'message_from_each_party': p_each}


def o_msgp(t, a, env, loc):
    return ev.Opq(('msgp', ev.canon(ev._ev(a[0], env, loc)), ev._int(a[1], env, loc)), env)


ev.OPS['msgp'] = o_msgp


MSGLEN = {}


def msglen(t):
    """Number of field elements in a message under an identifier (what the senders put there)."""
    x = t.a[0]
    if x.op == 'field' and x.a[1] == 'data':
        x = x.a[0]
    if x.op in ('msgp', 'recvd'):
        return MSGLEN.get(x.a[0])


terms.LENHOOK.append(msglen)


def netatom():
    return atom('net', NETTY)


def sends(it):
    return [e for e in it.events if e.kind == 'send']


def parts(m):
    """(recipient, identifier, data) of a message term."""
    return field(m, 'to'), field(m, 'proto_id'), field(m, 'data')


def inbox(it, q, filt=None):
    """Messages the analysed code sends to party q, in order."""
    out = EMPTY
    for e in sends(it):
        to, i, d = parts(e.args[1])
        if filt and not filt(e):
            continue
        if to.op == 'ctor' and to.a[0] == ONE:
            dst = to.a[1]
            hit = eq0(sub(dst, q))
        elif to.op == 'ctor' and to.a[0] == ALL:
            dst, hit = None, TRUE
        else:
            dst = None
            hit = ite(isv(to, ALL), TRUE, eq0(sub(vfield(to, ONE, 0), q)))
        pay = one(tup(i, d))
        pc = e.pc
        loops = list(e.loops)
        if dst is not None and loops and any(v in dst.fv for v, _ in loops):
            v, k = loops[-1]
            off = sub(dst, v)
            if v not in off.fv:
                # the loop runs over the recipients: exactly one iteration addresses q
                w = sub(q, off)
                x = ite(band(replace(pc, {v: w}), le(I(0), w), lt(w, k)), replace(pay, {v: w}), EMPTY)
                loops = loops[:-1]
                for v, k in reversed(loops):
                    x = flat(arr(k, v, x))
                out = cat(out, x)
                continue
        x = ite(band(pc, hit), pay, EMPTY)
        for v, k in reversed(loops):
            x = flat(arr(k, v, x))
        out = cat(out, x)
    return out


def shpts(n):
    return A(n, lambda i: gfint(i))


def defpts(n, l):
    return A(l, lambda i: gfint(add(n, i)))


def spec_share(pos, d, n, sec, tail, pad=None):
    """Shares of sec at the points pos by a polynomial of degree d with random values tail at the first share points."""
    l, np_ = length(pos), add(d, I(1))
    k0 = sub(np_, l)
    pts = cat(pos, A(k0, lambda i: gfint(i)))
    vals = cat(sec, A(k0, tail))
    return cat(A(k0, tail), A(sub(n, k0), lambda i: vdot(A(np_, lambda j: lc(pts, gfint(add(k0, i)), j)), vals)))


def spec_recon(pos, d, n, sh):
    """Values at pos of the polynomial through the last d+1 shares."""
    np_ = add(d, I(1))
    last = A(np_, lambda i: gfint(add(sub(n, np_), i)))
    return A(length(pos), lambda j: GS(np_, lambda k: gmul(lc(last, at(pos, j), k), at(sh, add(sub(n, np_), k)))))


class Ctx:
    """A context of the protocols with arbitrary parameters (packing l, threshold t, n parties)."""
    def __init__(self, c, names=''):
        self.c = c
        self.n, self.t, self.l = [atom(x, 'usize') for x in ('n', 't', 'l')]
        self.id = atom('me', 'u16')
        self.tau, self.K, self.M = [atom(x, 'usize') for x in ('tau', 'klen', 'mlen')]
        n, t, l = self.n, self.t, self.l
        FACTS.extend([sub(n, add(t, l)), sub(l, I(1)), t, sub(sub(n, self.id), I(1)), self.id, sub(n, I(1))])
        it = c.interp(LAGP)
        self.d = sub(add(t, l), I(1))
        self.dp = defpts(n, l)
        self.pss, _ = c.call(PS + 'new', [self.d, n, self.dp], it=it)
        self.pssn, _ = c.call(PS + 'new', [sub(n, I(1)), n, self.dp], it=it)
        self.term = mk('struct', C + 'protocol::MPCContext', (
            ('id', self.id), ('n', n), ('t', t), ('l', l), ('lpn_tau', self.tau), ('lpn_key_len', self.K),
            ('lpn_mssg_len', self.M), ('pss', self.pss), ('pss_n', self.pssn)))

    def params(self, r, k, wide=True):
        l = r.randrange(1, 4)
        t = r.randrange(1, 3)
        n = l + t + r.randrange(0, 3)
        if k % 16 == 9:
            l, n = l + 6, n + 6
        elif k % 64 == 21 and wide:
            l, t, n = 1, 1, r.choice((33, 66, 130, 258)) if k > 64 else 258
        elif k == 10 and wide:
            l, t, n = 18, 1, 20
        return {'n': n, 't': t, 'l': l, 'me': r.randrange(n), 'tau': 2, 'klen': r.randrange(1, 4), 'mlen': r.randrange(1, 4)}


# ---------------------------------------------------------------- identifiers
def o_child(t, a, env, loc):
    """Contract of the identifier builder: child number k of a parent."""
    return ('child', ev.canon(ev._ev(a[0], env, loc)), ev._int(a[1], env, loc))


ev.OPS['child'] = o_child


def IDP(c):
    from idp import next_path
    PB = C + 'protocol::ProtocolIDBuilder::'

    def new(it, args, n):
        p, m = it.val(args[0]), it.val(args[1])
        it.event('builder', n, p, m)
        return mk('struct', PB[:-2], (('id', p), ('max', m), ('ctr', I(0))))

    def nxt(it, args, n):
        r = args[0]
        s = it.val(r)
        p, m, k = field(s, 'id'), field(s, 'max'), field(s, 'ctr')
        it.write(r.a[0], r.a[1], mk('struct', PB[:-2], (('id', p), ('max', m), ('ctr', add(k, I(1))))))
        t = mk('child', p, k)
        TY[t] = IDTY
        it.event('child', n, p, k, m)
        return some(t)
    return {PB + 'new': new, next_path(c): nxt}


def loopseq(e, t, cond=TRUE):
    """The values of t over the iterations of the loops around an event, in order, as a sequence."""
    pc = band(e.pc, cond)
    t = one(t) if pc is TRUE else ite(pc, one(t), EMPTY)
    for v, b in reversed(e.loops):
        t = flat(A(b, lambda k: replace(t, {v: k})))
    return t


def optval(v):
    """Python value of an optional value: None or the content."""
    return v[1] if v[0] == 'some' else None
