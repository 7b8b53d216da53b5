"""The network: framing, routing, matching of requests, collecting, barrier, statistics, connections (C16-C22)."""
from netspec import *
import netio
import os
SG_SHOW = os.environ.get('SG_SHOW')

RM = NW + 'ReceivedMessage'
RCP = NW + 'Recipient'
BYTES = 'std::vec::Vec<u8>'


class Lost(Exception):
    pass


def message(name, to):
    """An arbitrary message."""
    i, d = atom(name + '.id', BYTES), atom(name + '.data', BYTES)
    return mk('struct', MSG, (('proto_id', i), ('to', to), ('data', d))), i, d


def targets(ch):
    """Channels a sending end may stand for: (condition, sending end)."""
    if ch.op == 'tx':
        return [(TRUE, ch)]
    if ch.op == 'ite':
        return [(band(ch.a[0], p), x) for p, x in targets(ch.a[1])] + [(band(bnot(ch.a[0]), p), x) for p, x in targets(ch.a[2])]
    if ch.op == 'at' and ch.a[0].op == 'cat':
        out, off = [], I(0)
        for s in ch.a[0].a:
            i = sub(ch.a[1], off)
            p = band(le(I(0), i), lt(i, length(s)))
            if p is not FALSE:
                out += [(band(p, q), x) for q, x in targets(at(s, i))]
            off = add(off, length(s))
        return out
    raise Unknown('channel ' + show(ch)[:80])


class Net:
    """Message flow of a network: tasks, the channels they read and what they pass on."""
    def __init__(self, c, it, handle):
        self.c, self.it, self.handle = c, it, handle
        self.recv = [e for e in it.events if e.kind == 'chanrecv']
        self.requests = field(handle, 'tx_recv')
        if self.requests.op != 'tx':
            raise Unknown('request channel')
        self.router = [e for e in self.recv if e.args[0].a[0] == self.requests.a[0]]
        if not self.router:
            raise Unknown('nobody reads the requests')
        self.rtask = self.router[0].task
        self.rloop = self.router[0].loops[-1][0] if self.router[0].loops else None
        self.inputs = {e.args[0].a[0] for e in self.recv if e.task == self.rtask and e.args[0].a[0] != self.requests.a[0]}

    def flow(self, ch, msg, pc=TRUE, loops=(), depth=0):
        """Where a message put into a channel ends: (kind, place, value, condition, loops, order)."""
        out = []
        if depth > 6:
            raise Unknown('cycle of channels')
        for p, tx in targets(ch):
            if tx.a[0] in self.inputs:
                out.append(('in', tx, msg, band(pc, p), loops))
                continue
            rs = [e for e in self.recv if e.args[0].a[0] == tx.a[0]]
            if not rs:
                out.append(('lost', tx, msg, band(pc, p), loops))
            for e in rs:
                rx = e.args[0]
                s, ok = {}, TRUE
                for a, b in zip(rx.a[1:], tx.a[1:]):
                    if a.op == 'tv':
                        s[a] = b
                        bound = dict(e.loops).get(a)
                        if bound is not None and bound is not INF:
                            ok = band(ok, le(I(0), b), lt(b, bound))
                    elif a is not b:
                        raise Unknown('channel index')
                if any(v not in s for v, _ in e.loops[:-1]) or not e.loops:
                    raise Unknown('several readers')
                w = e.loops[-1][0]
                s[mk('chanmsg', rx, e.loc, *[v for v, _ in e.loops])] = msg
                s[mk('chanopen', rx, e.loc, *[v for v, _ in e.loops])] = TRUE

                def fix(t):
                    return replace(t, s)
                for f in self.it.events:
                    if f.task != e.task or w not in [v for v, _ in f.loops] or f.kind not in ('chansend', 'write'):
                        continue
                    k = [v for v, _ in f.loops].index(w)
                    ls = loops + tuple((v, fix(b)) for v, b in f.loops[k + 1:])
                    q = band(pc, p, ok, fix(f.pc))
                    if q is FALSE:
                        continue
                    if f.kind == 'write':
                        out.append(('write', fix(f.args[0]), fix(f.args[1]), q, ls))
                    else:
                        out += self.flow(fix(f.args[0]), fix(f.args[1]), q, ls, depth + 1)
        return out

    def refusals(self, ch, msg, depth=0):
        """Conditions whose failure stops the message on its way."""
        out = []
        for _, tx in targets(ch):
            for e in self.recv:
                rx = e.args[0]
                if rx.a[0] != tx.a[0] or not e.loops or tx.a[0] in self.inputs:
                    continue
                s = {a: b for a, b in zip(rx.a[1:], tx.a[1:]) if a.op == 'tv'}
                w = e.loops[-1][0]
                s[mk('chanmsg', rx, e.loc, *[v for v, _ in e.loops])] = msg
                s[mk('chanopen', rx, e.loc, *[v for v, _ in e.loops])] = TRUE
                for f in self.it.events:
                    if f.task != e.task or w not in [v for v, _ in f.loops]:
                        continue
                    if f.kind == 'unwrap':
                        out.append((replace(f.pc, s), replace(f.args[0], s)))
                    elif f.kind == 'panic':
                        out.append((replace(f.pc, s), bnot(replace(f.args[0], s))))
                    elif f.kind == 'chansend' and depth < 6:
                        out += self.refusals(replace(f.args[0], s), replace(f.args[1], s), depth + 1)
        return out


def land(pay, pc, loops, idx, q):
    """The part of a flow that lands at index q."""
    loops = list(loops)
    for j in reversed(range(len(loops))):
        v, k = loops[j]
        off = sub(idx, v)
        if v in idx.fv and v not in off.fv:
            w = sub(q, off)
            m = {v: w}
            x = ite(band(replace(pc, m), le(I(0), w), lt(w, k)), replace(pay, m), EMPTY)
            del loops[j]
            break
    else:
        p = {m: n for m, n in poly(sub(idx, q)).items()}
        x = None
        for t in subterms(idx):
            if t.op in ('vf', 'param', 'field') and p.get((t,)) in (1, -1) and t is not q:
                w = sub(t, mul(I(p[(t,)]), sub(idx, q)))
                if t not in subterms(w):
                    m = {t: w}
                    x = ite(band(eq0(sub(idx, q)), replace(pc, m)), replace(pay, m), EMPTY)
                    break
        if x is None:
            x = ite(band(eq0(sub(idx, q)), pc), pay, EMPTY)
    for v, k in reversed(loops):
        x = flat(arr(k, v, x))
    return x


def reaches(to, q):
    return TRUE if to.a[0] == ALL else eq0(sub(to.a[1], q))


def received(i, frm, d):
    return mk('struct', RM, (('proto_id', i), ('from', frm), ('data', d)))


def norm_msg(t):
    """A delivered message, whatever way its parts were put together."""
    return received(field(t, 'proto_id'), field(t, 'from'), field(t, 'data'))


# ---------------------------------------------------------------- summaries
class LocalNet:
    def __init__(self, c):
        self.n = atom('n', 'u16')
        FACTS.append(sub(self.n, I(1)))
        it = c.interp({})
        it.reactive = True
        r, _ = c.call(NW + 'setup_local_network', [self.n], it=it)
        self.it, self.res = it, r
        self.p, self.q = atom('p', 'u16'), atom('q', 'u16')
        FACTS.extend([sub(sub(self.n, self.p), I(1)), sub(sub(self.n, self.q), I(1))])
        self.h = field(at(r, self.p), '1')
        self.net = Net(c, it, self.h)

    def dom(self, r, k):
        n = r.choice((9, 70, 258)) if k % 25 == 12 else r.randrange(1, 5)
        p, q = r.randrange(n), r.randrange(n)
        if n > 8 and r.randrange(2):
            p = q = n - 1
        return rcpt(Env({'n': n, 'p': p, 'q': q}, k), r, n)


class TcpNet:
    def __init__(self, c):
        self.me = atom('me', 'u16')
        self.addrs = atom('addrs', 'std::vec::Vec<std::string::String>')
        self.n = length(self.addrs)
        FACTS.extend([sub(sub(self.n, self.me), I(1)), self.me, sub(I(65535), self.n)])
        it = c.interp({})
        it.reactive = True
        r, _ = c.call(NW + 'setup_tcp_network', [self.me, self.addrs], it=it)
        self.it, self.res = it, r
        self.h = field(r, '1')
        self.net = Net(c, it, self.h)
        self.readers = self.find_readers()

    def find_readers(self):
        """Tasks that read a stream and report what they read: (stream, reported sender, event, loop variable, bound)."""
        out = []
        for e in self.it.events:
            if e.kind != 'read':
                continue
            for f in self.it.events:
                if f.kind == 'chansend' and f.task == e.task and e.task and f.args[0].op == 'tx' and f.args[0].a[0] in self.net.inputs:
                    x = (e.args[0], field(f.args[1], 'from'), f)
                    if not any(y[0] is x[0] and y[1] is x[1] and y[2] is f for y in out):
                        out.append(x)
        return out

    def stream(self, q):
        """Stream whose messages are reported as coming from party q: (stream, condition of its task, event)."""
        out = []
        for s, frm, f in self.readers:
            outer = f.loops[0] if len(f.loops) > 1 else None
            if outer is None:
                if frm is q:
                    out.append((s, TRUE, f, {}))
                continue
            v, b = outer
            off = sub(frm, v)
            if v in off.fv:
                raise Unknown('reported sender')
            w = sub(q, off)
            if nonneg(w) and nonneg(sub(sub(b, w), I(1))):
                out.append((replace(s, {v: w}), TRUE, f, {v: w}))
            elif not nonneg(sub(w, b)) and not nonneg(sub(I(-1), w)):
                raise Unknown('party number')
        return out


def rcpt(env, r, n, **kw):
    """Fill in a random recipient and message."""
    env.params['someone'] = n - 1 if n > 8 and r.randrange(2) else r.randrange(n)
    for m in ('m.id', 'm.data'):
        env.params[m] = [r.randrange(256) for _ in range(r.choice((0, 1, 2, 3)))]
    env.params.update(kw)
    return env


def peer_bytes(c, t, q, msg, st):
    """Bytes a message puts on the stream st of peer q."""
    out = EMPTY
    hits = 0
    pid = None
    for kind, s, x, pc, loops in t.net.flow(field(t.h, 'tx_send'), msg):
        if kind != 'write':
            continue
        cands = [{}] + [{v: q} for v, _ in loops]
        to = field(msg, 'to')
        if to.a[1:] and to.a[1].op == 'param' and to.a[1] is not q:
            cands.append({to.a[1]: q})
        for m in cands:
            if replace(s, m) is st:
                break
        else:
            continue
        hits += 1
        p = replace(pc, m)
        ls = list(loops)
        if m:
            k, = m
            if k.op == 'tv':
                b = dict(loops)[k]
                p = band(p, le(I(0), q), lt(q, b))
                ls = [(v, y) for v, y in ls if v is not k]
            else:
                p = band(p, eq0(sub(k, q)))
        y = ite(p, replace(x, m), EMPTY)
        for v, b in reversed(ls):
            y = flat(arr(b, v, y))
        out = cat(out, y)
    # the stream of a peer that announced itself exists
    ex = {y: TRUE for y in subterms(out) if y.op == 'is_some' and any(z.op == 'scat' for z in subterms(y))}
    return replace(out, ex) if ex else out


def sides(t):
    """Peers with a lower and with a higher number."""
    lo, hi = atom('lower', 'u16'), atom('higher', 'u16')
    FACTS.extend([sub(sub(t.me, lo), I(1)), sub(sub(t.n, lo), I(1)), sub(sub(hi, t.me), I(1)), sub(sub(t.n, hi), I(1))])

    def dom(r, k):
        n = r.choice((9, 70, 258)) if k % 25 == 12 else r.randrange(3, 6)
        me = r.randrange(1, n - 1)
        return rcpt(Env({'addrs': ['a%d:%d' % (i, 100 + i) for i in range(n)], 'me': me, 'lower': r.randrange(me),
                         'higher': r.randrange(me + 1, n)}, k), r, n)
    return [('lower', lo), ('higher', hi)], dom


# ---------------------------------------------------------------- C17
@prop('C17')
def c17(c):
    someone = atom('someone', 'u16')
    TO = [('broadcast', mk('ctor', ALL)), ('single recipient', mk('ctor', ONE, someone))]
    for kind, to in TO:
        in_process(c, kind, to)
    for kind, to in TO:
        over_tcp(c, kind, to)


def in_process(c, what, to):
    with c.part('in-process ' + what):
        t = LocalNet(c)
        W = c.where(NW + 'setup_local_network')
        msg, i, d = message('m', to)
        if to.a[1:]:
            FACTS.append(sub(sub(t.n, to.a[1]), I(1)))
        # the input of party q's router
        inp = {}
        r0 = t.net.router[0]
        if len(r0.loops) < 2:
            raise Unknown('router tasks')
        got = EMPTY
        lost = FALSE
        for kind, tx, x, pc, loops in t.net.flow(field(t.h, 'tx_send'), msg):
            if kind == 'lost':
                lost = bor(lost, pc)
            if kind != 'in':
                continue
            if len(tx.a) != 2:
                raise Unknown('input of the router')
            got = cat(got, land(one(norm_msg(x)), pc, loops, tx.a[1], t.q))
        rq = field(field(at(t.res, t.q), '1'), 'tx_recv')
        ok = [e for e in t.net.recv if e.task == t.net.rtask and e.args[0].a[0] in t.net.inputs and e.args[0].a[1:] == r0.args[0].a[1:]]
        if not ok or rq.a[1:] != (t.q,):
            raise Unknown('which router serves which party')
        c.eq('in-process delivery, ' + what, got, ite(reaches(to, t.q), one(received(i, t.p, d)), EMPTY), t.dom, W,
             'a message does not reach exactly its recipients with its true sender, identifier and payload')
        if what == 'broadcast':
            sender(c, t.h)


def over_tcp(c, what, to):
    with c.part('tcp ' + what):
        t = TcpNet(c)
        if to.a[1:]:
            FACTS.append(sub(sub(t.n, to.a[1]), I(1)))
        W = c.where(NW + 'setup_tcp_network')
        msg, i, d = message('m', to)
        sd, dom = sides(t)
        own = EMPTY
        for kind, tx, x, pc, loops in t.net.flow(field(t.h, 'tx_send'), msg):
            if kind != 'in':
                continue
            y = None
            if loops:
                # a loop over the recipients: at most one iteration delivers locally
                v, k = loops[-1]
                w = solve_eq(pc, v)
                if w is not None and len(loops) == 1:
                    y = ite(band(replace(pc, {v: w}), le(I(0), w), lt(w, k)), replace(one(norm_msg(x)), {v: w}), EMPTY)
            if y is None:
                y = ite(pc, one(norm_msg(x)), EMPTY)
                for v, k in reversed(loops):
                    y = flat(arr(k, v, y))
            own = cat(own, y)
        c.eq('tcp: to oneself, ' + what, own, ite(reaches(to, t.me), one(received(i, t.me, d)), EMPTY), dom, W,
             'a message to oneself is not delivered exactly once, unchanged')
        FACTS.append(sub(I(255), length(i)))
        for name, q in sd:
            st = t.stream(q)
            if len(st) != 1:
                c.lacks(t.it, 'tcp: stream of a %s peer, %s' % (name, what), 'messages of a peer are reported by %d tasks' % len(st), W)
                continue
            single, _, _ = message('m', mk('ctor', ONE, q))
            b = peer_bytes(c, t, q, single, st[0][0])
            if b is EMPTY:
                c.lacks(t.it, 'tcp: to a %s peer, %s' % (name, what), 'a message to a peer is not written on the stream of that peer', W)
                continue
            c.eq('tcp: to a %s peer, %s' % (name, what), peer_bytes(c, t, q, msg, st[0][0]), ite(reaches(to, q), b, EMPTY), dom, W,
                 'a message is not written exactly once to each of its recipients')
            if what == 'broadcast':
                roundtrip(c, t, name, q, st[0], b, i, d, dom)


def solve_eq(pc, v):
    """The value a condition forces a variable to have."""
    cs = pc.a if pc.op == 'and' else (pc,)
    cs = [y for x in cs for y in (x if isinstance(x, tuple) else (x,))]
    for x in cs:
        if isinstance(x, terms.T) and x.op == 'eq0':
            p = poly(x.a[0])
            k = p.get((v,))
            if k in (1, -1):
                w = sub(v, mul(I(k), x.a[0]))
                if v not in w.fv:
                    return w


def sender(c, h):
    """The handle puts each message into the channel of its network once."""
    it = c.interp({})
    it.reactive = True
    m = atom('mm', MSG)
    hh = mk('struct', C + 'protocol::ProtoHandle', (('tx_send', mk('tx', 'a')), ('tx_recv', mk('tx', 'b'))))
    c.call(PH + 'send', [hh, m], it=it)
    es = [e for e in it.events if e.kind == 'chansend']
    W = c.where(PH + 'send')
    s = cat(*[loopseq(e, tup(e.args[0], e.args[1])) for e in es]) if es else EMPTY
    c.eq('sending puts the message on its way once', s, one(tup(mk('tx', 'a'), m)),
         lambda r, k: Env({'mm': 'M'}, k), W)


ev.OPS['tx'] = lambda t, a, e, l: ('tx', a[0]) + tuple(ev._ev(x, e, l) for x in a[1:])
ev.OPS['rx'] = lambda t, a, e, l: ('rx', a[0]) + tuple(ev._ev(x, e, l) for x in a[1:])


# ---------------------------------------------------------------- C16
def reader_step(t, st):
    """One round of the task that reads a stream: (messages, rest afterwards, end conditions, memory of the round)."""
    s, _, f, m = st
    w = f.loops[-1][0] if len(f.loops) > 1 or not m else None
    info = t.it.loopinfo.get(w)
    if info is None:
        raise Unknown('reading loop')
    back = {x: k for k, x in info['state'].items()}
    cell = None
    for c_, p, i in zip(info['carry'], info['paths'], info['inits']):
        if any(z.op == 'instream' for z in subterms(i)):
            cell = (c_, p)
    if cell is None:
        raise Unknown('no stream is read')
    rest, path = cell
    g = lambda x: replace(replace(x, back), m)
    msgs = []
    for e in t.it.events:
        if e.kind == 'chansend' and e.task == f.task and w in [v for v, _ in e.loops]:
            k = [v for v, _ in e.loops].index(w)
            msgs.append((g(e.args[1]), g(e.pc), [(v, g(b)) for v, b in e.loops[k + 1:]]))
    post = g(info['post'].get(path[0]))
    ends = [replace(b[0], m) for b in info['breaks']]
    fails = []
    for e in t.it.events:
        if e.task == f.task and w in [v for v, _ in e.loops] and e.kind in ('unwrap', 'panic', 'index', 'slice'):
            if e.kind == 'unwrap':
                fails.append(g(ite(e.pc, e.args[0], TRUE)))
            elif e.kind == 'panic':
                fails.append(g(ite(e.pc, bnot(e.args[0]), TRUE)))
    return rest, msgs, post, ends, fails


def roundtrip(c, t, name, q, st, b, i, d, dom, prefix='tcp'):
    W = c.where(NW + 'setup_tcp_network')
    rest, msgs, post, ends, fails = reader_step(t, st)
    more = atom('rest', BYTES)
    ex = {}

    def g(x):
        x = replace(x, {rest: cat(b, more)})
        e = {y: TRUE for y in subterms(x) if y.op == 'is_some' and any(z.op == 'scat' for z in subterms(y))}
        e.update({y: TRUE for y in subterms(x) if y.op == 'chanok'})
        return replace(x, e) if e else x
    got = EMPTY
    for x, pc, loops in msgs:
        y = ite(g(pc), one(norm_msg(g(x))), EMPTY)
        for v, k in reversed(loops):
            y = flat(arr(g(k), v, y))
        got = cat(got, y)
    post = g(post)
    stop = bor(*[g(x) for x in ends]) if ends else FALSE
    fine = band(*[g(x) for x in fails]) if fails else TRUE

    # prefixes are only handled through the library
    abstract = not any(y.op in ('mod', 'div', 'xor', 'bitop', 'unk') for y in subterms(tup(got, post, stop, fine)))

    def dom2(r, k):
        env = dom(r, k)
        big = r.choice((0, 1, 3, 100, 130, 200, 300, 20000 if k % 10 == 0 else 17))
        env.params['m.id'] = [r.randrange(256) for _ in range(r.choice((0, 1, 2, 126, 127, 128, 254, 255)))]
        env.params['m.data'] = [r.randrange(256) for _ in range(big)]
        env.maxlen = 50000
        if k % 2 and abstract:
            env.params['@vbits'] = r.choice((1, 2))
            env.params['m.data'] = env.params['m.data'][:r.choice((0, 1, 2, 5, 10, 20, 50, 100, 200))]
            env.params['m.id'] = env.params['m.id'][:r.choice((0, 1, 3, 20, 200))]
        env.params['rest'] = [r.randrange(256) for _ in range(r.choice((0, 1, 5)))]
        for y in subterms(mk('tup', got, post, stop, fine)):
            if y.op == 'carry':
                env.params.setdefault('@carry', {})[y] = None
        return env
    spec = tup(one(received(i, q, d)), more)
    pre = '%s: %s peer: ' % (prefix, name)
    with c.part(pre + 'read back'):
        c.eq(pre + 'read back', tup(got, post), spec, dom2, W,
             'what a peer reads is not the message that was written, or reading does not stop at its end', proofs=[by_prefix])
        c.eq(pre + 'reading goes on', tup(stop, fine), tup(FALSE, TRUE), dom2, W,
             'reading a well-formed message stops or fails', proofs=[by_prefix])


def by_prefix(a, b):
    """normal forms, by cases on the length of the prefix"""
    cs = netio.cases(a)
    if SG_SHOW and cs:
        for m in cs:
            print('CASE', replace(a, m), replace(b, m))
    return bool(cs) and all(replace(a, m) is replace(b, m) for m in cs)


def o_carry(t, a, env, loc):
    """State left over from earlier rounds: arbitrary."""
    L = ARRLEN.get(t)
    if L is not None and L.op == 'int':
        return [env.rnd('carry', t.dg, i) & 255 for i in range(L.a[0])]
    return ev.Opq(('carry', t.dg), env)


ev.OPS['carry'] = o_carry


@prop('C16')
def c16(c):
    with c.part('setup'):
        t = TcpNet(c)
        W = c.where(NW + 'setup_tcp_network')
        sd, dom = sides(t)
        for name, q in sd:
            with c.part(name):
                st = t.stream(q)
                if len(st) != 1:
                    raise Unknown('stream of a peer')
                msg, i, d = message('m', mk('ctor', ONE, q))
                refused(c, t, name, q, st[0], msg, i, d, dom)
        for name, q in sd:
            with c.part(name):
                st = t.stream(q)
                msg, i, d = message('m', mk('ctor', ONE, q))
                FACTS.append(sub(I(255), length(i)))
                b = peer_bytes(c, t, q, msg, st[0][0])
                if b is EMPTY:
                    raise Unknown('nothing written')
                roundtrip(c, t, name, q, st[0], b, i, d, dom, 'framing')


def refused(c, t, name, q, st, msg, i, d, dom):
    """Identifiers too long for the format stop the sender."""
    W = c.where(NW + 'setup_tcp_network')
    conds = t.net.refusals(field(t.h, 'tx_send'), msg)
    lim = sub(I(255), length(i))
    ok = None
    for pc, x in conds:
        if x.op == 'ge0' and x.a[0] is lim:
            ok = 'an identifier longer than 255 bytes stops the sender'
    b = peer_bytes(c, t, q, msg, st[0])
    rest, msgs, post, ends, fails = reader_step(t, st)

    def trial(r, k):
        env = dom(r, k)
        env.params['m.id'] = [r.randrange(256) for _ in range(r.choice((256, 257, 300, 511, 512, 513, 600)))]
        env.params['m.data'] = [r.randrange(256) for _ in range(r.choice((0, 1, 700)))]
        for pc, x in conds:
            if any(y.op in ('chanok', 'scat') for y in subterms(x)):
                continue
            p = replace(pc, {y: TRUE for y in subterms(pc) if y.op == 'is_some'})
            if ev._bool(p, env, {}) and not ev._bool(x, env, {}):
                return None
        more = [1, 2, 3]
        bs = evalt(b, env)
        env.params['@rest'] = bs + more
        m = {rest: atom('@rest', BYTES)}
        ex = lambda x: replace(replace(x, {y: TRUE for y in subterms(x) if y.op in ('is_some', 'chanok')}), m)
        out = []
        try:
            for x, pc, loops in msgs:
                if loops:
                    raise Unknown('loop')
                if ev._bool(ex(pc), env, {}):
                    out.append((ev.canon(evalt(ex(field(x, 'proto_id')), env)), ev.canon(evalt(ex(field(x, 'data')), env))))
        except Undef:
            return 'an identifier of %d bytes is written but cannot be read back' % len(env.params['m.id']), env.params
        if out != [(ev.canon(env.params['m.id']), ev.canon(env.params['m.data']))]:
            return 'an identifier of %d bytes is neither refused nor read back unchanged' % len(env.params['m.id']), env.params
    c.hunt('long identifiers, %s peer' % name, [b], trial, W, None, ok)


# ---------------------------------------------------------------- C18
class Router:
    """The task that matches messages and requests, driven by histories of arrivals."""
    def __init__(self, t):
        self.t = t
        net, it = t.net, t.it
        self.it = it
        self.loop = net.rloop
        if self.loop is None:
            raise Unknown('router loop')
        es = [e for e in it.events if e.task == net.rtask]
        arms = [e for e in es if e.kind == 'select']
        if not arms or any(e.loops[-1][0] is not self.loop or e.loc != arms[0].loc for e in arms):
            raise Unknown('the router is not one loop over a choice of arrivals')
        outer = arms[0].loops[:-1]
        self.m = {v: I(0) for v, _ in outer}
        self.trips = replace(arms[0].loops[-1][1], self.m)
        self.arms, self.sites = {}, {}
        for e in arms:
            rx = [y for y in subterms(e.args[1]) if y.op == 'chanopen']
            if len({y.a[0] for y in rx}) != 1:
                raise Unknown('arm of the choice')
            k = 'req' if rx[0].a[0].a[0] == net.requests.a[0] else 'msg'
            self.arms[e.args[0].a[0]] = (k, replace(e.args[2], self.m))
            self.sites[rx[0].a[1]] = k
        if sorted(k for k, _ in self.arms.values()) != ['msg', 'req']:
            raise Unknown('arms of the choice')
        self.site = arms[0].loc
        # effects of one round, in order
        self.effects = []
        for e in es:
            if e.kind not in ('chansend', 'unwrap', 'panic', 'index', 'slice', 'exit', 'intsub'):
                continue
            x = (e.kind, [replace(a, self.m) if isinstance(a, terms.T) else a for a in e.args], replace(e.pc, self.m),
                 [(v, replace(b, self.m)) for v, b in e.loops[len(outer):]], e)
            self.effects.append(x)
        self.unknown = [x for x in it.unknown]

    def run(self, hist, n=2, watch=()):
        """Deliveries of a history: (position, request, message), and what goes wrong."""
        env = Env({'n': n, '@hist': hist, '@router': self}, 0)
        env.params.update(self.extra(n) if hasattr(self, 'extra') else {})
        out = []
        L = len(hist)
        trips = ev._int(self.trips, env, {})
        if trips != L + 1:
            return out, 'the router stops after %d of %d arrivals' % (trips - 1, L)
        for i in range(L):
            for kind, args, pc, loops, e in self.effects:
                if not loops or loops[0][0] is not self.loop:
                    continue
                for m in self.rounds(loops[1:], env, {self.loop: I(i)}, pc):
                    if not ev._bool(replace(pc, m), env, {}):
                        continue
                    if kind == 'chansend':
                        h = evalt(replace(args[0], m), env)
                        if not (isinstance(h, tuple) and h and h[0] == 'H'):
                            raise Unknown('receiver of a delivery')
                        x = replace(args[1], m)
                        out.append((i, h[1], tuple(ev.canon(evalt(field(x, k), env)) for k in ('proto_id', 'from', 'data')), h[2], m, e))
                    elif kind == 'unwrap' and not ev._bool(replace(args[0], m), env, {}):
                        return out, 'the router fails at %s' % e.loc
                    elif kind == 'panic' and ev._bool(replace(args[0], m), env, {}):
                        return out, 'the router stops at %s' % e.loc
                    elif kind == 'exit':
                        return out, 'the router exits at %s' % e.loc
        return out, None

    def rounds(self, loops, env, m, pc):
        if not loops:
            yield m
            return
        (v, b), rest = loops[0], loops[1:]
        inner = {x for x, _ in loops}
        for x in (pc.a if pc.op == 'and' else (pc,)):
            if not inner & set(x.fv):
                try:
                    if not ev._bool(replace(x, m), env, {}):
                        return
                except Undef:
                    pass
        k = ev._int(replace(b, m), env, {})
        for j in range(k):
            yield from self.rounds(rest, env, {**m, v: I(j)}, pc)


def o_chan(t, a, env, loc):
    """What a receive yields."""
    R, H = env.params.get('@router'), env.params.get('@hist')
    if R is None:
        raise Unknown('message')
    i = ev._int(a[-1], env, loc)
    k = R.sites.get(a[1])
    if t.op == 'chanopen':
        return k is not None and i < len(H) and H[i][0] == k
    if k is None or i >= len(H) or H[i][0] != k:
        raise Undef('nothing received')
    return H[i][1]


def o_chosen(t, a, env, loc):
    R, H = env.params.get('@router'), env.params.get('@hist')
    sel = a[0]
    if R is None or sel.a[0] != R.site:
        raise Unknown('choice')
    i = ev._int(sel.a[1], env, loc)
    idx = a[1] if isinstance(a[1], int) else a[1].a[0]
    if idx not in R.arms:
        return False
    k, cc = R.arms[idx]
    if i < len(H):
        return H[i][0] == k
    # everything is closed: an arm runs only when its pattern accepts that
    return ev._bool(replace(cc, {R.loop: I(i)}), env, {}) and not any(y.op == 'chanopen' for y in subterms(cc))


def o_chanok(t, a, env, loc):
    h = ev._ev(a[0], env, loc)
    if isinstance(h, tuple) and h and h[0] == 'H':
        return h[2]
    return True


def o_mapempty(t, a, env, loc):
    m = ev._ev(a[0], env, loc)
    if isinstance(m, tuple) and m and m[0] == 'M':
        return not ev._mkeys(m)
    raise Unknown('map')


ev.OPS.update({'chanmsg': o_chan, 'chanopen': o_chan, 'chosen': o_chosen, 'chanok': o_chanok, 'mapempty': o_mapempty})


def arrival(kind, ident, k, frm=0, size=1):
    i = [7] * (ident + 1)
    if kind == 'msg':
        return 'msg', ('S', RM, (('proto_id', i), ('from', frm), ('data', [k & 255, k >> 8] + [0] * (size - 1))))
    return 'req', (i, ('H', k, kind == 'live'))


def expected(hist):
    """First in, first out, per identifier; requests that went away are skipped and take nothing."""
    out, msgs, reqs = [], {}, {}
    for i, (k, x) in enumerate(hist):
        if k == 'msg':
            f = dict(x[2])
            key, y = ev.canon(f['proto_id']), tuple(ev.canon(f[z]) for z in ('proto_id', 'from', 'data'))
            q = reqs.get(key, [])
            while q:
                h = q.pop(0)
                if h[2]:
                    out.append((i, h[1], y))
                    break
            else:
                msgs.setdefault(key, []).append(y)
        else:
            key, h = ev.canon(x[0]), x[1]
            q = msgs.get(key)
            if q:
                if h[2]:
                    out.append((i, h[1], q.pop(0)))
            else:
                reqs.setdefault(key, []).append(h)
    return out


def describe(hist):
    s = []
    for k, x in hist:
        s.append('message(id %d)' % (len(dict(x[2])['proto_id']) - 1) if k == 'msg' else
                 'request(id %d%s)' % (len(x[0]) - 1, '' if x[1][2] else ', given up'))
    return ', '.join(s)


def histories(c, depth, more):
    import itertools
    kinds = [(k, i) for i in (0, 1) for k in ('msg', 'live', 'dead')]
    for h in itertools.product(kinds, repeat=depth):
        if h[0][1] == 0:
            yield [arrival(k, i, j) for j, (k, i) in enumerate(h)]
    r = random.Random(c.seed)
    for _ in range(more):
        n = r.randrange(5, 10)
        bias = r.choice((.2, .5, .8))
        yield [arrival('msg' if r.random() < bias else r.choice(('live', 'live', 'dead')), r.randrange(3), j) for j in range(n)]


@prop('C18')
def c18(c):
    for name, make, fn in (('in-process', LocalNet, 'setup_local_network'), ('tcp', TcpNet, 'setup_tcp_network')):
        with c.part(name):
            t = make(c)
            R = Router(t)
            if make is TcpNet:
                R.extra = lambda n: {'addrs': ['a:1'] * n, 'me': 0}
            hs = list(histories(c, 4 if name == 'in-process' else 3, 100 if name == 'in-process' else 60))
            W = '%s %s' % (t.net.router[0].loc, t.net.router[0].fn)

            def trial(r, k):
                h = hs[k]
                got, bad = R.run(h)
                if bad:
                    return '%s: %s' % (describe(h), bad), {}
                live = [x[:3] for x in got if x[3]]
                exp = expected(h)
                if live != exp:
                    return '%s: delivered %s, required %s' % (describe(h), short(live), short(exp)), {}
            c.hunt('%s: first in, first out' % name, [R.trips] + [x for e in R.effects if e[0] == 'chansend' for x in e[1]], trial, W, None,
                   n=len(hs), bounded='agrees with the first-in first-out rule on all %d histories' % len(hs))
    request(c)


def short(xs):
    return '[%s]' % ', '.join('request %s <- message %s at %d' % (h, m[2][1] if len(m[2]) > 1 else '?', i) for i, h, m in xs)


def request(c):
    """Receiving puts one request for the identifier and yields what answers it."""
    with c.part('request'):
        it = c.interp({})
        it.reactive = True
        i = atom('pid', BYTES)
        hh = mk('struct', C + 'protocol::ProtoHandle', (('tx_send', mk('tx', 'a')), ('tx_recv', mk('tx', 'b'))))
        r, _ = c.call(PH + 'recv', [hh, i], it=it)
        es = [e for e in it.events if e.kind == 'chansend']
        W = c.where(PH + 'recv')
        s = cat(*[loopseq(e, tup(e.args[0], field(e.args[1], '0'))) for e in es]) if es else EMPTY
        c.eq('one request per receive', s, one(tup(mk('tx', 'b'), i)), lambda r, k: Env({'pid': [1]}, k), W)
        if len(es) == 1:
            h = field(es[0].args[1], '1')
            if h.op == 'tx':
                c.eq('the answer is returned', r, ok_val(mk('awaited', mk('rx', *h.a))), lambda r, k: Env({'pid': [1]}, k), W)


# ---------------------------------------------------------------- C19
def p_next(it, args, n):
    """The next message under an identifier."""
    m = mk('arrived', it.loc(n), *it.lvars())
    it.event('recv', n, it.val(args[1]), m)
    return mk('afut', 'msg', it.expand(m, RM))


def o_arrived(t, a, env, loc):
    H = env.params.get('@arrivals')
    if H is None:
        raise Unknown('arrival')
    i = ev._int(a[-1], env, loc)
    if i >= len(H):
        raise Undef('nothing arrives')
    return H[i]


ev.OPS['arrived'] = o_arrived


def arrivals():
    """Senders of the messages, in order of arrival, with and without empty payloads."""
    import itertools
    for n in (1, 2, 3, 4):
        for k in range(n, n + (2 if n == 4 else 4)):
            for h in itertools.product(range(n), repeat=k):
                if len(set(h)) < n or len(set(h[:-1])) == n:
                    continue
                for empty in range(3):
                    yield n, h, empty
    yield 260, tuple(range(259, 0, -1)) + (7, 258, 1, 0), 0


@prop('C19')
def c19(c):
    F = NW + 'message_from_each_party'
    with c.part('collect'):
        it = c.interp({PH + 'recv': p_next, PH + 'send': p_send})
        it.reactive = True
        pid, net, n = atom('pid', IDTY), netatom(), atom('num', 'usize')
        r, _ = c.call(F, [pid, net, n], it=it)
        W = c.where(F)
        rs = [e for e in it.events if e.kind == 'recv']
        ids = cat(*[ite(e.pc, one(e.args[0]), EMPTY) for e in rs]) if rs else EMPTY
        if not rs:
            c.lacks(it, 'receives', 'no message is received', W)
            return
        for e in rs:
            x = e.args[0]
            for v, _ in reversed(e.loops):
                if v in x.fv:
                    x = ev_unk(x)
            c.eq('messages of the given identifier', x, pid, lambda r, k: Env({'pid': [r.randrange(256)], 'num': 2}, k), W,
                 'messages of another identifier are collected')
        if [e for e in it.events if e.kind == 'send']:
            c.undecided('sends nothing', 'collecting also sends')
        if len(rs) > 1 or len(rs[0].loops) != 1:
            raise Unknown('more than one place receives')
        e = rs[0]
        v, bound = e.loops[0]
        fails = [f for f in it.events if f.kind in ('unwrap', 'panic')]
        cases = list(arrivals())

        def trial(rr, k):
            num, h, empty = cases[k]
            more = [x % num for x in range(num * 2)]
            hist = [('S', RM, (('proto_id', [1]), ('from', p), ('data', [] if empty and (i + empty) % 2 == 0 else [i + 1])))
                    for i, p in enumerate(list(h) + more)]
            env = Env({'pid': [1], 'num': num, '@arrivals': hist, 'net': 'N'}, k)
            what = 'messages of parties %s' % ', '.join(map(str, h))
            try:
                b = ev._int(bound, env, {})
            except Undef as x:
                if str(x) != 'nothing arrives':
                    raise
                b = len(hist)       # goes on after all of them
            got = 0
            for i in range(min(b, len(hist))):
                if ev._bool(replace(e.pc, {v: I(i)}), env, {}):
                    got += 1
            if got < len(h):
                return '%s: returns after %d messages' % (what, got), {}
            if got > len(h):
                return '%s: waits for more than %d messages' % (what, len(h)), {}
            res_ = [ev.canon(x) for x in evalt(r, env)]
            exp = []
            for p in range(num):
                exp.append(ev.canon(dict(hist[h.index(p)][2])['data']))
            if res_ != exp:
                return '%s: returns %s, required %s' % (what, res_, exp), {}
        c.hunt('first message of each party', [r, bound], trial, W, None, n=len(cases),
               bounded='correct for all %d arrival orders (up to 4 parties, 6 messages; one with 260 parties)' % len(cases))


def ev_unk(x):
    raise Unknown('identifier depends on the iteration')


# ---------------------------------------------------------------- C20
@prop('C20')
def c20(c):
    F = NW + 'sync'
    with c.part('barrier'):
        it = c.interp({**NETP, NW + 'message_from_each_party': lambda it, a, n: mk('waitfor', it.val(a[0]), it.val(a[2]))})
        pid, net, n = atom('pid', IDTY), netatom(), atom('num', 'usize')
        q = atom('q', 'u16')
        FACTS.append(sub(sub(n, q), I(1)))
        c.call(F, [pid, net, n], it=it)
        W = c.where(F)

        def dom(r, k):
            m = r.randrange(1, 5)
            return Env({'pid': [r.randrange(256)], 'num': m, 'q': r.randrange(m), 'net': 'N'}, k)
        box = inbox(it, q)
        ids = A1(box)
        c.eq('announced to every party', ids, one(pid), dom, W, 'the barrier does not announce the caller to every party under the identifier')
        waits = [e for e in it.events if e.kind == 'await' and e.args[0].op == 'waitfor']
        if not waits and [e for e in it.events if e.kind in ('recv', 'spawn', 'await')]:
            raise Unknown('waits in another way')
        if any(e.task for e in waits):
            raise Unknown('waits in another task')
        s = sends(it)
        if s and waits and max(e.seq for e in s) > min(e.seq for e in waits):
            c.bad('announces before waiting', 'the caller is announced only after waiting for the others', W)
        else:
            c.ok('announces before waiting', 'order of effects')
        w = cat(*[loopseq(e, tup(*e.args[0].a)) for e in waits]) if waits else EMPTY
        c.eq('waits for every party', w, one(tup(pid, n)), dom, W, 'the barrier does not wait for a message of every party under the identifier')


def A1(box):
    """Identifiers of a sequence of messages."""
    v = fresh()
    return arr(length(box), v, field(at(box, v), '0'))


# ---------------------------------------------------------------- C21
COUNTS = 'std::vec::Vec<(u64, u64)>'
ST = NW + 'Stats'


def counts(r, n):
    return [(r.randrange(1000), r.randrange(1000)) for _ in range(n)]


@prop('C21')
def c21(c):
    for name, make, fn in (('in-process', LocalNet, 'setup_local_network'), ('tcp', TcpNet, 'setup_tcp_network')):
        with c.part(name):
            t = make(c)
            counting(c, t, name, field(at(t.res, t.p), '0') if make is LocalNet else field(t.res, '0'), fn)
    figures(c)
    interval(c)


def counting(c, t, name, st, fn):
    cell = [y for y in subterms(st) if y.op == 'cell']
    if len(cell) != 1:
        raise Unknown('statistics')
    cell, = cell
    W = '%s %s' % (t.net.router[0].loc, t.net.router[0].fn)
    if name == 'in-process':
        if t.p not in cell.a[1:]:
            c.bad('%s: own counters' % name, 'the parties share one set of counters', c.where(NW + fn))
            return
        c.ok('%s: own counters' % name, 'each party has its own counters')
    a = cell.a[0]
    it = t.it
    info = it.loopinfo.get(t.net.rloop)
    if info is None:
        raise Unknown('router loop')
    last = {i['loc'] + str(i['task']): (v, i) for v, i in it.loopinfo.items()}
    others = [i for v, i in last.values() if v is not t.net.rloop and any(p[0] == a for p in i['paths']) and i['task'] != t.net.rtask]
    if (a,) not in info['paths']:
        if not others and not it.unknown:
            c.bad('%s: each message is counted once' % name, 'the task that receives messages does not change the counters returned', W)
            return
        raise Unknown('counters changed elsewhere')
    if others:
        c.bad('%s: each message is counted once' % name, 'the counters are also changed at %s' % others[0]['loc'], W)
        return
    R = Router(t)
    if make_is_tcp(t):
        R.extra = lambda n: {'addrs': ['a:1'] * n, 'me': 0}
    k = info['paths'].index((a,))
    cc = info['carry'][k]
    back = {x: y for y, x in info['state'].items()}
    sel = [e for e in it.events if e.task == t.net.rtask and e.kind == 'select']
    before, m, j = atom('before', COUNTS), atom('m', RM), atom('j', 'usize')
    num = atom('n', 'u16')
    M = None
    for e in sel:
        if R.arms[e.args[0].a[0]][0] == 'msg':
            M = [mk('chanmsg', *y.a) for y in subterms(e.args[1]) if y.op == 'chanopen'][0]
    arms = {}
    for kind in ('msg', 'req'):
        arms[kind] = {}
        for y in {z for e in sel for z in subterms(e.pc) if z.op == 'chosen'}:
            idx = y.a[1] if isinstance(y.a[1], int) else y.a[1].a[0]
            arms[kind][y] = TRUE if R.arms.get(idx, ('',))[0] == kind else FALSE
    plain = {M: m, cc: before}

    def see(x, kind):
        x = replace(replace(replace(x, back), arms[kind]), plain)
        # counters of distinct parties are distinct entries
        y = at(x, j)
        return tup(field(y, '0'), field(y, '1'))
    was = at(before, j)
    p, b = field(was, '0'), field(was, '1')
    p1, b1 = [field(at(before, field(m, 'from')), z) for z in '01']
    d, i = length(field(m, 'data')), length(field(m, 'proto_id'))
    hit = eq0(sub(field(m, 'from'), j))
    FACTS.append(sub(sub(length(before), j), I(1)))
    FACTS.append(sub(sub(length(before), field(m, 'from')), I(1)))

    def dom(r, kk):
        n = r.randrange(1, 4)
        return Env({'before': counts(r, n), 'n': n, 'j': r.randrange(n),
                    'm': ('S', RM, (('proto_id', [0] * r.randrange(4)), ('from', r.randrange(n)), ('data', [0] * r.randrange(6))))}, kk)
    post = info['post'][a]
    nn = t.n
    c.eq('%s: counters start at zero' % name, info['inits'][k], A(nn, lambda q: tup(I(0), I(0))),
         lambda r, kk: Env({'n': 3, 'addrs': ['h:1'] * 3, 'me': 0}, kk), W)
    c.eq('%s: each message is counted once' % name, see(post, 'msg'),
              tup(ite(hit, add(p, d), p), ite(hit, add(b, add(d, i)), b)), dom, W,
              'a received message does not add its length to the counters of its sender',
              alts=[tup(ite(hit, add(p1, d), p), ite(hit, add(b1, add(d, i)), b))])
    c.eq('%s: nothing else is counted' % name, see(post, 'req'), tup(p, b), dom, W,
         'a request changes the counters')
    proved = 'counters of the round at each delivery are those after the message was counted'
    for e in it.events:
        if e.kind != 'chansend' or e.task != t.net.rtask or not e.loops or t.net.rloop not in [v for v, _ in e.loops]:
            continue
        for kind in ('msg', 'req'):
            if replace(replace(e.pc, back), arms[kind]) is FALSE:
                continue
            if see(e.store[a], kind) is not see(post, kind):
                proved = None
    hs = []
    r = random.Random(c.seed)
    for _ in range(60):
        n = r.randrange(2, 6)
        hs.append([arrival(r.choice(('msg', 'msg', 'live')), r.randrange(2), q, r.randrange(2), r.randrange(1, 5)) for q in range(n)])

    def trial(rr, q):
        h = hs[q]
        got, bad = R.run(h)
        if bad:
            return None
        for i, hd, msg, live, mm, e in got:
            env = Env({'n': 2, '@hist': h, '@router': R}, 0)
            env.params.update(R.extra(2) if hasattr(R, 'extra') else {})
            v = evalt(replace(replace(e.store[a], R.m), mm), env)
            exp = [(0, 0), (0, 0)]
            for k_, x in h[:i + 1]:
                if k_ == 'msg':
                    f = dict(x[2])
                    o = exp[f['from']]
                    exp[f['from']] = (o[0] + len(f['data']), o[1] + len(f['data']) + len(f['proto_id']))
            if [tuple(x) for x in v] != exp:
                return '%s: counters are %s at a delivery, required %s' % (describe(h), v, exp), {}
    c.hunt('%s: counted before delivery' % name, [post], trial, W, None, proved, n=len(hs))


def make_is_tcp(t):
    return isinstance(t, TcpNet)


def figures(c):
    """Figures read the counters."""
    n = atom('n', 'usize')
    for name, args, spec in (('party', [atom('from', 'u16')], None), ('total', [], None)):
        with c.part(name):
            it = c.interp({})
            v = A(n, lambda q: tup(fld('vals', q, 0), fld('vals', q, 1)))
            st = stats_with(c, it.alloc(v))
            r, _ = c.call(ST + '::' + name, [st] + args, it=it)
            W = c.where(ST + '::' + name)

            def dom(rr, k):
                m = rr.randrange(1, 4)
                return Env({'n': m, 'from': rr.randrange(m), 'vals': counts(rr, m)}, k)
            if name == 'party':
                FACTS.append(sub(sub(n, args[0]), I(1)))
                spec = tup(fld('vals', args[0], 0), fld('vals', args[0], 1))
            else:
                w = fresh(n)
                spec = tup(isum(n, w, fld('vals', w, 0)), isum(n, w, fld('vals', w, 1)))
            c.eq('%s figures' % name, tup(field(r, '0'), field(r, '1')), spec, dom, W)


def stats_with(c, a):
    """Statistics as the network returns them, with the counters at address a."""
    t = LocalNet(c)
    st = field(at(t.res, t.p), '0')
    cells = [y for y in subterms(st) if y.op == 'cell']
    if len(cells) != 1:
        raise Unknown('statistics')
    return replace(st, {cells[0]: mk('cell', a)})


def fld(a, q, k):
    return field(at(atom(a, COUNTS), q), str(k))


def interval(c):
    S = C + 'Stats::'
    with c.part('interval'):
        it = c.interp({})
        n = atom('n', 'u32')
        FACTS.append(sub(I(65535), n))
        old = A(n, lambda q: tup(fld('before', q, 0), fld('before', q, 1)))
        new = A(n, lambda q: tup(fld('after', q, 0), fld('after', q, 1)))
        a = it.alloc(old)
        st = stats_with(c, a)
        s, _ = c.call(S + 'now', [st, n], it=it)
        it.store[a] = new
        r, _ = c.call(S + 'elapsed', [s, st], it=it)
        W = c.where(S + 'elapsed')

        def dom(rr, k):
            m = rr.randrange(1, 4)
            b = counts(rr, m)
            return Env({'n': m, 'before': b, 'after': [(x + rr.randrange(50), y + rr.randrange(50)) for x, y in b]}, k)
        code = field(r, '1')
        q = fresh()
        c.eq('increase since the start, per party', A(length(code), lambda q: tup(field(at(code, q), '0'), field(at(code, q), '1'))),
             A(n, lambda q: tup(sub(fld('after', q, 0), fld('before', q, 0)), sub(fld('after', q, 1), fld('before', q, 1)))), dom, W,
             'an interval does not report the increase of each counter since its start')


# ---------------------------------------------------------------- C22
def _str(x):
    return x if isinstance(x, str) else None


def o_strcat(t, a, env, loc):
    xs = [_str(ev._ev(x, env, loc)) for x in a]
    if None in xs:
        raise Unknown('text')
    return ''.join(xs)


def o_part(t, a, env, loc):
    s, p = _str(ev._ev(a[0], env, loc)), a[1].a[-1] if a[1].op in ('lit', 'str') else None
    if s is None or p is None:
        raise Unknown('text')
    if t.op == 'hassep':
        return p in s
    if p not in s:
        raise Undef('no separator')
    return s.split(p, 1)[0 if t.op == 'before' else 1]


def o_stream(t, a, env, loc):
    return (t.op,) + tuple(ev.canon(ev._ev(x, env, loc)) for x in a)


def o_instream(t, a, env, loc):
    f = env.params.get('@instream')
    if f is None:
        raise Unknown('stream')
    return f(ev._ev(a[0], env, loc))


def o_connok(t, a, env, loc):
    if '@fail' not in env.params:
        raise Unknown('connection')
    return (ev._int(a[-1], env, loc) if len(a) > 2 else 0) >= env.params['@fail']


ev.OPS.update({'strcat': o_strcat, 'before': o_part, 'after': o_part, 'hassep': o_part, 'listener': o_stream, 'accepted': o_stream,
               'dialled': o_stream, 'instream': o_instream, 'connok': o_connok})


def retry(b):
    """Is this the bound of a loop that tries again?"""
    return any(y.op == 'connok' for y in subterms(b))


@prop('C22')
def c22(c):
    with c.part('connections'):
        t = TcpNet(c)
        it = t.it
        W = c.where(NW + 'setup_tcp_network')
        sd, _ = sides(t)

        def dom(r, k):
            n = r.randrange(3, 7)
            me = r.randrange(1, n - 1)
            return Env({'addrs': ['h%d:%d' % (i, 4000 + 7 * i) for i in range(n)], 'me': me, 'lower': r.randrange(me),
                        'higher': r.randrange(me + 1, n), '@fail': 0,
                        '@instream': lambda s: announce(me + 1 + s[-1]) if s[0] == 'accepted' else []}, k)

        def announce(p):
            return list(evalt(hello, Env({'me': p, 'addrs': ['h:1'] * 9, '@fail': 0}, 0))) + [5, 6]

        # listening port
        binds = [e for e in it.events if e.kind == 'bind']
        own = at(t.addrs, t.me)
        if len(binds) != 1 or binds[0].loops:
            if binds:
                raise Unknown('listening in several places')
            c.lacks(it, 'listening', 'a party does not listen', W)
        else:
            e = binds[0]
            port = mk('after', own, mk('lit', 'char', ':'))
            x = e.args[0]
            ok = x is own or (x.op == 'strcat' and len(x.a) == 2 and x.a[1] is port and x.a[0].op == 'str' and x.a[0].a[0].endswith(':'))

            def trial(r, k):
                env = dom(r, k)
                a = evalt(x, env)
                if not isinstance(a, str):
                    raise Unknown('address')
                p = env.params['addrs'][env.params['me']].split(':')[1]
                if a.rsplit(':', 1)[-1] != p:
                    return 'listens at %s instead of port %s' % (a, p), env.params
            c.hunt('listening port', [x], trial, '%s %s' % (e.loc, e.fn), None,
                   'the address ends in the port of the own address' if ok else None)

        # dialling
        dials = [e for e in it.events if e.kind == 'dial']
        WD = '%s %s' % (dials[0].loc, dials[0].fn) if dials else W
        calls = EMPTY
        for e in dials:
            x = one(e.args[0])
            pc = e.pc
            for y in {z for z in subterms(pc) if z.op == 'connok'}:
                pc = replace(pc, {y: TRUE})
            x = ite(pc, x, EMPTY)
            for v, b in reversed(e.loops):
                if retry(b):
                    x = replace(x, {v: I(0)})
                else:
                    x = flat(arr(b, v, x))
            calls = cat(calls, x)
        c.eq('dials every lower peer', calls, A(t.me, lambda i: at(t.addrs, i)), dom, WD,
             'a party does not dial exactly the lower-numbered peers at their addresses')
        retrying(c, t, dials, dom, WD)

        # announcement
        hello = EMPTY
        dtask = {e.task for e in dials}
        for e in it.events:
            if e.kind == 'write' and e.task in dtask and e.args[0].op != 'dialled':
                raise Unknown('stream of the announcement')
            if e.kind == 'write' and e.task in dtask:
                hello = cat(hello, ite(e.pc, e.args[1], EMPTY))
        if any(v in hello.fv for e in dials for v, _ in e.loops):
            raise Unknown('announcement depends on the peer')
        acc = [e for e in it.events if e.kind == 'accept']
        WA = '%s %s' % (acc[0].loc, acc[0].fn) if acc else W
        if len(acc) != 1 or len(acc[0].loops) != 1:
            raise Unknown('accepting')
        e = acc[0]
        v, b = e.loops[0]
        c.eq('accepts every higher peer', ite(e.pc, b, I(0)), sub(sub(t.n, t.me), I(1)), dom, WA,
             'a party does not accept exactly one connection per higher-numbered peer')
        size = I(0)
        for f in it.events:
            if f.kind == 'read' and f.args[0] is e.args[0]:
                if f.loops != e.loops:
                    raise Unknown('reading the announcement')
                size = add(size, ite(f.pc, f.args[1], I(0)))

        # streams filed under the announced numbers
        s_lo = t.stream(sd[0][1])
        s_hi = t.stream(sd[1][1])
        for (name, q), ss in zip(sd, (s_lo, s_hi)):
            if len(ss) != 1:
                c.lacks(t.it, 'stream of a %s peer' % name, '%d tasks report messages as coming from a peer' % len(ss), W)
                return
        c.eq('stream of a lower peer', s_lo[0][0], mk('dialled', at(t.addrs, sd[0][1])), dom, W,
             'the stream filed under a lower peer is not the one dialled to it')
        hi = s_hi[0][0]
        sc = [y for y in subterms(hi) if y.op == 'scat']
        p = atom('p', 'u16')
        FACTS.append(sub(sub(p, t.me), I(1)))
        pd = lambda r, k: Env({'p': r.choice((r.randrange(1, 4), r.randrange(1, 65536), 255, 256)), 'addrs': ['h:1'] * 3, 'me': 0, 'more': [9, 8, 7]}, k)
        c.eq('the announcement is read completely', replace(size, {}), length(hello), pd, WA,
             'the bytes read from a new connection are not those announcing the peer')
        if len(sc) == 1 and not any(y.op == 'scat' for y in subterms(sc[0].a[3])):
            w = fresh(sc[0].a[0])
            g, i, x = body_at(sc[0], w)
            st = [y for y in subterms(i) if y.op == 'instream']
            if st:
                more = atom('more', BYTES)
                m = {y: cat(replace(hello, {t.me: p}), more) for y in st}
                c.eq('announced number', tup(replace(g, m), replace(i, m)), tup(TRUE, p), pd, WA,
                     'the number read from a new connection is not the one the peer announced', proofs=[recompose])
        filed(c, t, hi, hello, e, dom, WA)


def recompose(a, b):
    """normal forms, with the number as its two bytes"""
    p = atom('p', 'u16')
    hi, lo = atom('p.hi', 'u8'), atom('p.lo', 'u8')
    FACTS.append(sub(I(255), lo))
    m = {fdiv(p, I(256)): hi, fmod(p, I(256)): lo}
    return replace(a, m) is replace(b, {p: add(mul(I(256), hi), lo)})


def body_at(s, w):
    """Guard, index and value of one write of a scattered update."""
    x = inst(s, w)
    return x.a


def attempts(e, m, env):
    for v, b in e.loops:
        if retry(b):
            for j in range(ev._int(replace(b, m), env, {})):
                yield {**m, v: I(j)}
            return
    yield m


def retrying(c, t, dials, dom, W):
    """Connections that fail are tried again, however often."""
    it = t.it
    stops = []
    for e in it.events:
        if e.kind in ('unwrap', 'panic', 'exit') and (
                any(retry(b) for _, b in e.loops) or
                any(y.op == 'connok' for a in (e.pc,) + tuple(x for x in e.args if isinstance(x, terms.T)) for y in subterms(a))):
            stops.append(e)
    fails = [0, 1, 2, 7, 60, 300]

    def trial(r, k):
        env = dom(r, 0)
        env.params['@fail'] = fails[k]
        for e in dials:
            m = {v: I(0) for v, b in e.loops if not retry(b)}
            n = None
            for v, b in e.loops:
                if retry(b):
                    n = ev._int(replace(b, m), env, {})
            if n is None:
                n = 1
            if n <= fails[k]:
                return 'dialling stops after %d attempts' % n, {}
        for e in stops:
            m = {v: I(0) for v, b in e.loops if not retry(b)}
            for m in attempts(e, m, env):
                if not ev._bool(replace(e.pc, m), env, {}):
                    continue
                a = replace(e.args[0], m) if e.args else TRUE
                if e.kind == 'exit' or (e.kind == 'unwrap') != ev._bool(a, env, {}):
                    return 'the program fails at %s when a peer does not listen yet' % e.loc, {}
    # one loop that ends exactly when the connection succeeds
    ok = None
    if dials and not stops and all(any(retry(b) for v, b in e.loops) for e in dials):
        e = dials[0]
        good = len(dials) == 1
        for v, b in e.loops:
            if retry(b):
                info = it.loopinfo.get(v)
                good = good and info is not None and len(info['breaks']) == 1 and info['breaks'][0][0].op == 'connok' and e.pc is TRUE
        ok = 'the dialling loop ends only when the connection succeeds' if good else None
    c.hunt('dials until the peer listens', [], trial, W, None, ok, n=len(fails))


def filed(c, t, hi, hello, acc, dom, W):
    """Accepted streams under the number they announce, in whatever order they come."""
    import itertools
    cases = []
    for n in range(2, 6):
        for me in range(n - 1):
            for perm in itertools.permutations(range(me + 1, n)):
                for q in range(me + 1, n):
                    cases.append((n, me, perm, q))

    def trial(r, k):
        n, me, perm, q = cases[k]
        par = {'addrs': ['h%d:%d' % (i, 4000 + i) for i in range(n)], 'me': me, 'higher': q, 'lower': 0, '@fail': 0}
        env = Env(dict(par), 0)

        def data(s):
            if s[0] != 'accepted':
                return []
            return list(evalt(hello, Env(dict(par, me=perm[s[-1]]), 0))) + [1, 2, 3, 4]
        env.params['@instream'] = data
        v = evalt(hi, env)
        if not (isinstance(v, tuple) and v and v[0] == 'accepted') or perm[v[-1]] != q:
            return 'connections announcing %s: the stream filed under party %d is %s' % (
                list(perm), q, 'that of party %d' % perm[v[-1]] if isinstance(v, tuple) and v and v[0] == 'accepted' else 'missing'), {}
    c.hunt('stream of a higher peer', [hi], trial, W, None, n=len(cases),
           bounded='the stream that announced the number, for all %d orders of up to 5 parties' % len(cases))
