"""Models of sockets and of the variable-length integers that frame messages.

A stream is a term; what is still to be read from it is a cell holding a byte sequence."""
from lib import *
import terms
import eval as ev


def vintlen(x):
    return add(I(1), mk('vintx', x))


def vint(x):
    return mk('vint', x)


def vlen0(b):
    if b.op == 'vb0':
        return add(I(1), b.a[1])
    if b.op == 'at' and b.a[0].op == 'vint' and b.a[1] is I(0):
        return vintlen(b.a[0].a[0])
    return mk('vlen0', b)


def whole(s):
    """The number a sequence encodes, when it is the first byte of an encoding and the rest of it."""
    p = s.a if s.op == 'cat' else (s,)
    if p and p[0].op == 'arr' and p[0].a[0] is I(1):
        b = at(p[0], I(0))
        if b.op == 'vb0':
            if len(p) == 1 and b.a[1] is I(0):
                return b.a[0]
            if len(p) == 2 and p[1] is mk('vbr', b.a[0]):
                return b.a[0]


def cases(t):
    """The two shapes of each prefix in t: one byte, or one byte and up to eight more."""
    xs = sorted({y.a[0] for y in subterms(t) if y.op in ('vint', 'vintx')}, key=lambda y: y.dg)
    if len(xs) != 1:
        return None
    x, = xs
    rest = mk('vx1', x)
    TY[rest] = 'usize'
    if not any(f is sub(I(7), rest) for f in FACTS):
        FACTS.append(sub(I(7), rest))
    more = add(I(1), rest)
    return [{mk('vintx', x): I(0), mk('vint', x): one(mk('vb0', x, I(0)))},
            {mk('vintx', x): more, mk('vint', x): cat(one(mk('vb0', x, more)), mk('vbr', x))}]


def unvint(s):
    if s.op == 'vint':
        return s.a[0]
    x = whole(s)
    if x is not None:
        return x
    return mk('unvint', s)


def vintok(s):
    if s.op == 'vint' or whole(s) is not None:
        return TRUE
    return mk('vintok', s)


def _vl(t):
    if t.op == 'vint':
        return vintlen(t.a[0])


terms.SMART.update({'vlen0': vlen0, 'unvint': unvint, 'vintok': vintok})
terms.OPLEN['vint'] = _vl
terms.OPLEN['vbr'] = lambda t: add(I(1), mk('vx1', t.a[0]))


def enc(x, bits=7):
    if x >= 1 << (8 * bits):
        return [0] + [(x >> (8 * i)) & 255 for i in range(8)]
    n = max(1, (max(x, 1).bit_length() + bits - 1) // bits)
    y = ((x << 1) | 1) << (n - 1)
    return [(y >> (8 * i)) & 255 for i in range(n)]


def dlen(b):
    if b == 0:
        return 9
    return (b & -b).bit_length()


def dec(s, bits=7):
    if not s or len(s) < dlen(s[0]):
        return None
    n = dlen(s[0])
    if n == 9:
        return sum(b << (8 * i) for i, b in enumerate(s[1:9]))
    y = sum(b << (8 * i) for i, b in enumerate(s[:n])) >> n
    return y if enc(y, bits) == s[:n] else None


def bits(env):
    """Valuations may use fewer bits per byte than the library, so that small messages exercise all prefix lengths."""
    return env.params.get('@vbits', 7)


def o_unvint(t, a, env, loc):
    x = dec([ev.as_int(b, env) & 255 for b in ev._seq(a[0], env, loc)], bits(env))
    if x is None:
        raise ev.Undef('vint')
    return x


def o_partread(t, a, env, loc):
    """A transfer may stop early."""
    m = ev._int(a[1], env, loc)
    k = env.rnd('partread', a[0], m, *[ev._int(v, env, loc) for v in a[2:]])
    return m if m < 2 or k % 3 == 0 else 1 + k // 3 % (m - 1)


ev.OPS.update({
    'vint': lambda t, a, e, l: enc(ev._int(a[0], e, l), bits(e)),
    'vintx': lambda t, a, e, l: len(enc(ev._int(a[0], e, l), bits(e))) - 1,
    'vlen0': lambda t, a, e, l: dlen(ev._int(a[0], e, l) & 255),
    'unvint': o_unvint,
    'vintok': lambda t, a, e, l: dec([ev.as_int(b, e) & 255 for b in ev._seq(a[0], e, l)], bits(e)) is not None,
    'partread': o_partread,
    'strcat': lambda t, a, e, l: ('strcat',) + tuple(ev._ev(x, e, l) for x in a),
})


def base(s):
    return s.a[0] if s.op in ('rd', 'wr') else s


class NetIO:
    def is_stream(self, t):
        return base_ty(t).startswith('tokio::net::')

    def remcell(self, s):
        s = base(s)
        a = self.rem.get(s)
        if a is None or a not in self.store:
            b = mk('instream', s)
            TY[b] = 'std::vec::Vec<u8>'
            a = self.rem[s] = self.alloc(b)
        return a

    def f_vint64__encode(self, args, n, nodes):
        return vint(self.val(args[0]))

    def f_vint64__encoded_len(self, args, n, nodes):
        return vintlen(self.val(args[0]))

    def f_vint64__decoded_len(self, args, n, nodes):
        return vlen0(self.val(args[0]))

    def f_vint64__decode(self, args, n, nodes):
        s = self.val(args[0])
        return res(vintok(s), unvint(s), NOTHING)

    def m_into_split(self, args, n, nodes):
        s = self.val(args[0])
        if self.is_stream(self.rty(nodes)):
            self.remcell(s)
            return mk('tup', mk('rd', s), mk('wr', s))

    def m_bind(self, args, n, nodes):
        if self.callee(n).startswith('tokio::net::TcpListener'):
            a = self.val(args[0])
            self.event('bind', n, a)
            return mk('afut', 'io', res(TRUE, mk('listener', a), NOTHING))

    def m_accept(self, args, n, nodes):
        if self.is_stream(self.rty(nodes)):
            s = mk('accepted', self.val(args[0]), *self.lvars())
            self.remcell(s)
            self.event('accept', n, s)
            return mk('afut', 'io', res(TRUE, mk('tup', s, mk('peeraddr', s)), NOTHING))

    def m_connect(self, args, n, nodes):
        if self.callee(n).startswith('tokio::net::TcpStream'):
            a = self.val(args[0])
            s = mk('dialled', a)
            self.remcell(s)
            self.event('dial', n, a)
            return mk('afut', 'io', res(mk('connok', a, *self.lvars()), s, NOTHING))

    def m_set_nodelay(self, args, n, nodes):
        return res(TRUE, UNIT, NOTHING)

    def take(self, s, k):
        """The next k bytes of a stream: (enough left, bytes)."""
        a = self.remcell(s)
        r = self.store[a]
        L = length(r)
        c = le(k, L)
        d = seqslice(r, I(0), k)
        self.store[a] = seqslice(r, k, L)
        return c, d

    def m_read_exact(self, args, n, nodes):
        if not self.is_stream(self.rty(nodes)) or args[1].op != 'ref':
            return None
        s = self.val(args[0])
        k = length(self.val(args[1]))
        c, d = self.take(s, k)
        self.write(args[1].a[0], args[1].a[1], d)
        self.event('read', n, base(s), k)
        return mk('afut', 'io', res(c, k, NOTHING))

    def m_read(self, args, n, nodes):
        if not self.is_stream(self.rty(nodes)):
            return Lib.std_read(self, args, n, nodes)
        if args[1].op != 'ref':
            return None
        s = self.val(args[0])
        buf = self.val(args[1])
        a = self.remcell(s)
        r = self.store[a]
        # as many bytes as have arrived, at least one
        k = mk('partread', S('%s %d' % (self.loc(n), self.seq)), imin(length(buf), length(r)), *self.lvars())
        TY[k] = 'usize'
        self.store[a] = seqslice(r, k, length(r))
        self.write(args[1].a[0], args[1].a[1], cat(seqslice(r, I(0), k), seqslice(buf, k, length(buf))))
        self.event('read', n, base(s), k)
        return mk('afut', 'io', res(TRUE, k, NOTHING))

    def m_write(self, args, n, nodes):
        if self.is_stream(self.rty(nodes)):
            x = self.val(args[1])
            k = mk('partread', S('%s %d' % (self.loc(n), self.seq)), length(x), *self.lvars())
            TY[k] = 'usize'
            self.event('write', n, base(self.val(args[0])), seqslice(x, I(0), k))
            return mk('afut', 'io', res(TRUE, k, NOTHING))
        return Lib.std_write(self, args, n, nodes)

    def read_int(self, w, args, n, nodes):
        if not self.is_stream(self.rty(nodes)):
            return None
        s = self.val(args[0])
        c, d = self.take(s, I(w))
        x = I(0)
        for i in range(w):
            x = add(mul(I(256), x), at(d, I(i)))
        self.event('read', n, base(s), I(w))
        return mk('afut', 'io', res(c, x, NOTHING))

    def write_int(self, w, args, n, nodes):
        if not self.is_stream(self.rty(nodes)):
            return None
        x = self.val(args[1])
        b = lst(*[fmod(fdiv(x, I(256 ** i)), I(256)) if i + 1 < w else fdiv(x, I(256 ** i)) for i in reversed(range(w))])
        self.event('write', n, base(self.val(args[0])), b)
        return mk('afut', 'io', res(TRUE, UNIT, NOTHING))

    def m_read_u8(self, args, n, nodes):
        return self.read_int(1, args, n, nodes)

    def m_read_u16(self, args, n, nodes):
        return self.read_int(2, args, n, nodes)

    def m_read_u32(self, args, n, nodes):
        return self.read_int(4, args, n, nodes)

    def m_read_u64(self, args, n, nodes):
        return self.read_int(8, args, n, nodes)

    def m_write_u8(self, args, n, nodes):
        return self.write_int(1, args, n, nodes)

    def m_write_u16(self, args, n, nodes):
        return self.write_int(2, args, n, nodes)

    def m_write_u32(self, args, n, nodes):
        return self.write_int(4, args, n, nodes)

    def m_write_u64(self, args, n, nodes):
        return self.write_int(8, args, n, nodes)

    def m_write_all(self, args, n, nodes):
        if self.is_stream(self.rty(nodes)):
            self.event('write', n, base(self.val(args[0])), self.val(args[1]))
            return mk('afut', 'io', res(TRUE, UNIT, NOTHING))

    def m_flush(self, args, n, nodes):
        if self.is_stream(self.rty(nodes)):
            self.event('flush', n, base(self.val(args[0])))
            return mk('afut', 'io', res(TRUE, UNIT, NOTHING))
        return Lib.std_flush(self, args, n, nodes)

    def m_sleep(self, args, n, nodes):
        if self.callee(n).startswith('tokio::time'):
            self.event('sleep', n)
            return mk('afut', 'sleep', UNIT)

    def m_from_secs(self, args, n, nodes):
        return mk('duration', self.val(args[0]))

    m_from_millis = m_from_secs

    def m_split_once(self, args, n, nodes):
        s, p = self.val(args[0]), self.val(args[1])
        return opt(mk('hassep', s, p), mk('tup', mk('before', s, p), mk('after', s, p)))

    def m_push_str(self, args, n, nodes):
        r = args[0]
        if r.op == 'ref':
            self.write(r.a[0], r.a[1], strcat(self.val(r), self.val(args[1])))
            return UNIT


def strcat(*a):
    out = []
    for x in a:
        for y in (x.a if x.op == 'strcat' else (x,)):
            if y.op == 'str' and y.a[0] == '':
                continue
            if out and out[-1].op == 'str' and y.op == 'str':
                out[-1] = S(out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return S('')
    return out[0] if len(out) == 1 else mk('strcat', *out)


terms.SMART['strcat'] = strcat
Lib.std_flush = Lib.m_flush
Lib.std_write = Lib.m_write
Lib.std_read = Lib.m_read
for k, f in vars(NetIO).items():
    if not k.startswith('__'):
        setattr(Lib, k, f)
