"""Forward dataflow over the type-checked tree: computes, for a function, the value term it returns
and the effects it performs, in terms of its inputs.

Branches are joined (one value per merge point, no path enumeration), loops are summarised from the
shape of their per-iteration update, calls inside the workspace are analysed through their bodies.
Anything that is not understood becomes an opaque term that still carries what it was computed from.
"""
import re
from terms import *
from terms import _subst_raw

RECLIM = 60


def strip(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        if p.startswith('::<', i):
            d += 1
            i += 3
            continue
        ch = p[i]
        if d:
            if ch == '<':
                d += 1
            elif ch == '>' and p[i - 1] != '-':
                d -= 1
            i += 1
            continue
        out.append(ch)
        i += 1
    return ''.join(out)


_bt = {}


def base_ty(ty):
    """Type with references, lifetimes and transparent smart pointers removed."""
    r = _bt.get(ty)
    if r is not None:
        return r
    s = ty
    while True:
        s0 = s
        s = s.strip()
        if s.startswith('&'):
            s = s[1:].lstrip()
            m = re.match(r"'\w+ ", s)
            if m:
                s = s[m.end():]
            if s.startswith('mut '):
                s = s[4:]
        for w in ('std::sync::Arc<', 'std::rc::Rc<', 'std::boxed::Box<', 'alloc::sync::Arc<'):
            if s.startswith(w) and s.endswith('>'):
                s = s[len(w):-1]
                if s.endswith(', std::alloc::Global'):
                    s = s[:-len(', std::alloc::Global')]
        if s == s0:
            break
    _bt[ty] = s
    return s


GFP = 'scalable_mpc::math::galois::GF<'
INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64,
        'isize': 64, 'u128': 128, 'i128': 128}


RAW = [False]   # examine the representation of field elements instead of treating them as atoms


def is_gf(ty):
    return not RAW[0] and base_ty(ty).startswith(GFP)


def is_int(ty):
    return base_ty(ty) in INTS


def is_nd(ty):
    return base_ty(ty).startswith('ndarray::ArrayBase<')


def nd_gf(ty):
    b = base_ty(ty)
    return b.startswith('ndarray::ArrayBase<') and GFP in b


def rank(ty):
    b = base_ty(ty)
    if not b.startswith('ndarray::ArrayBase<'):
        return 0
    return ndrank(b)


# methods that change what they are called on through a shared reference
INTERIOR = ('std::sync::OnceLock::', 'std::sync::Once::', 'std::sync::atomic::', 'std::cell::Cell::', 'std::cell::RefCell::',
            'std::sync::Mutex::', 'std::sync::RwLock::', 'std::cell::OnceCell::')


class Ev:
    """One recorded effect."""
    __slots__ = ('kind', 'args', 'pc', 'loops', 'loc', 'fn', 'stack', 'seq', 'task', 'store')

    def __init__(self, kind, args, pc, loops, loc, fn, stack, seq, task):
        self.kind = kind
        self.args = args
        self.pc = pc
        self.loops = loops
        self.loc = loc
        self.fn = fn
        self.stack = stack
        self.seq = seq
        self.task = task

    def __repr__(self):
        return '%s%r pc=%r loops=%r @%s' % (self.kind, tuple(self.args), self.pc, self.loops, self.loc)


class NoWhile(Exception):
    """The loop is not summarised by its state before each iteration."""


def comm(op, a, b):
    if a.op == 'int' and b.op == 'int':
        x, y = a.a[0], b.a[0]
        return I(x ^ y if op == 'xor' else x & y if op == 'bit&' else x | y)
    return mk(op, *sorted((a, b)))


for _o in ('xor', 'bit&', 'bit|'):
    SMART[_o] = lambda a, b, _o=_o: comm(_o, a, b)


class Prog:
    def __init__(self, dumps):
        self.bodies = {}
        self.bypath = {}
        self.adts = {}
        self.tys = {}
        self.all = []
        self.statics = []
        for d in dumps:
            tys = d['tys']
            for b in d['bodies']:
                b['_tys'] = tys
                b['_crate'] = d['crate']
                self.bodies.setdefault(b['id'], b)
                self.bypath.setdefault(strip(b['path']), b)
                self.all.append(b)
            for a in d['adts']:
                a['_tys'] = tys
                self.adts[a['path']] = a
                if a['dk'] == 'Enum':
                    vs = [a['path'] + '::' + v['n'] for v in a['variants']]
                    for v in vs:
                        ADTS[v] = vs
            for s in d['statics']:
                s['_tys'] = tys
                self.statics.append(s)
        self.froms = {}
        for b in self.all:
            t = b.get('trait', '')
            if b.get('name') == 'from' and t and t.startswith('std::convert::From<'):
                src = t[len('std::convert::From<'):-1]
                dst = b['_tys'][b['self_ty']]
                self.froms[(src.split('<')[0], dst.split('<')[0])] = b

    def fn(self, path):
        return self.bypath.get(path)


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ('env', 'body', 'tys', 'consts', 'rets', 'site', 's0')

    def __init__(self, env, body, tys, consts):
        self.env = env
        self.body = body
        self.tys = tys
        self.consts = consts
        self.rets = []
        self.site = None
        self.s0 = None


class Interp:
    peel = False
    joinfail = False     # tasks may fail: joining yields an error

    def __init__(self, prog, prims=None, opaque=()):
        self.p = prog
        self.prims = dict(prims or {})
        self.opaque = set(opaque)
        self.store = {}
        self.na = 0
        self.pc = TRUE
        self.live = TRUE
        self.loops = []
        self.loopfr = []
        self.events = []
        self.clos = {}
        self.cellat = {}
        self.reactive = False   # receive loops are summarised with their state
        self.loopinfo = {}
        self.rem = {}           # stream -> cell with what is still to be read from it
        self.futs = {}
        self.fr = None
        self.stack = []
        self.unknown = []      # (what, loc) of constructs that were not understood
        self.analysed = set()  # bodies entered
        self.ncalls = 0
        self.seq = 0
        self.task = ()
        self.recvs = {}
        self.depth = 0
        self.reclim = 2
        self.asserts = []
        self.inline_gf = False
        self.indexes = []
        self.hooks = {}
        self.path = []
        self.lazies = {}
        self.zips = []
        self.cellof = {}
        self.statics = {}

    # ------------------------------------------------------------ helpers
    def ty(self, n):
        return self.fr.tys[n['t']] if 't' in n else ''

    def aty(self, n):
        return self.fr.tys[n['at']] if 'at' in n else self.ty(n)

    def loc(self, n):
        b = self.fr.body
        return '%s:%s' % (b['file'] if b else '?', n.get('ln', '?'))

    def unk(self, what, n, *deps):
        self.unknown.append((what, self.loc(n) if n else '?'))
        return mk('unk', what, *deps, *self.held(deps))

    def held(self, deps):
        """Contents of the places among the arguments: an unknown result may depend on them."""
        out = []
        for d in deps:
            for x in sorted((x for x in subterms(d) if x.op in ('cell', 'ref')), key=str) if isinstance(d, T) else ():
                if x.a[0] in self.store and len(out) < 8:
                    out.append(self.store[x.a[0]])
        return out

    def event(self, kind, n, *args):
        self.seq += 1
        pc = band(self.pc, self.live)
        e = Ev(kind, args, pc, tuple(self.loops), self.loc(n), self.fr.body['path'] if self.fr.body else '?',
               tuple(s for s in self.stack), self.seq, self.task)
        if self.reactive and kind == 'chansend':
            e.store = dict(self.store)
        self.events.append(e)
        return e

    def alloc(self, v):
        self.na += 1
        self.store[self.na] = v
        return self.na

    def typed(self, t, ty):
        if t.op in ('param', 'field', 'call', 'carry', 'at', 'vf', 'optval', 'okval', 'msgp', 'deser', 'unk', 'lv', 'gfint', 'dot',
                    'mget', 'recvd', 'slice'):
            if t not in TY:
                b = base_ty(ty)
                TY[t] = b
                m = re.match(r'\[.*; (\d+)\]$', b)
                if m and t not in ARRLEN:
                    ARRLEN[t] = I(int(m.group(1)))
        return t

    def val(self, t):
        k = 0
        while t.op == 'ref' and k < 20:
            t = self.read(t.a[0], t.a[1])
            k += 1
        return t

    def read(self, addr, path):
        v = self.store.get(addr)
        if v is None:
            return mk('unk', 'dangling')
        for p in path:
            v = self.val(v) if v.op == 'ref' else v
            v = self.sel(v, p)
        return v

    def sel(self, v, p):
        k = p[0]
        if k == 'f':
            if len(p) > 2 and p[2] == 'gf':
                return gfval(v)
            return field(v, p[1])
        if k == 'i':
            return at(v, p[1])
        if k == 'sl':
            hi = length(v) if p[2] is None else p[2]
            return seqslice(v, p[1], hi)
        if k == 'opt':
            return opt_val(v)
        if k == 'map':
            return self.mget(v, p[1])
        if k == 'mapor':
            return self.mgetor(v, p[1], p[2])
        if k == 'nd':
            return self.nd_slice(v, p[1])
        if k == 'vf':
            return vfield(v, p[1], p[2])
        raise Unsupported('path ' + k)

    def write(self, addr, path, val):
        v = self.store.get(addr, NOTHING)
        # follow stored references
        if path and v.op == 'ref':
            return self.write(v.a[0], v.a[1] + path, val)
        self.store[addr] = self.upd(v, list(path), val)

    def upd(self, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        if v.op == 'ref':
            self.write(v.a[0], tuple(v.a[1]) + tuple(path), val)
            return v
        inner = self.upd(self.sel(v, p), rest, val) if rest else val
        k = p[0]
        if k == 'f':
            if len(p) > 2 and p[2] == 'gf':
                return gfint(inner)
            return setfield(v, p[1], inner)
        if k == 'i':
            return updat(v, p[1], inner)
        if k == 'opt':
            return opt(is_some(v), inner)
        if k == 'sl':
            hi = length(v) if p[2] is None else p[2]
            n = length(v)
            return cat(seqslice(v, I(0), p[1]), inner, seqslice(v, hi, n))
        if k == 'map':
            return self.mins(v, p[1], inner)
        if k == 'mapor':
            old = self.mgetor(v, p[1], p[2])
            d = sub(inner, old) if (_intlike(inner) and _intlike(old)) else None
            if d is not None and v not in subterms(d):
                return self.map_ext(v, mk('acc', p[1], p[2], d))
            return self.mins(v, p[1], inner)
        if k == 'nd':
            return mk('ndupd', v, p[1], inner)
        if k == 'vf':
            return mk('unk', 'variant-update', v, inner)
        raise Unsupported('write ' + k)

    # maps are sequences of entries, later entries win
    def map_ext(self, m, entry):
        if m.op == 'map':
            e = m.a[0]
            last = e.a[-1] if e.op == 'cat' else e
            if last.op == 'arr' and last.a[0] is I(1) and entry.op in ('tup', 'acc'):
                x = inst(last, I(0))
                if x.op == 'ori' and x.a[0] is entry.a[0] and (entry.op == 'tup' or entry.a[1] is x.a[1]):
                    e = cat(*e.a[:-1]) if e.op == 'cat' else EMPTY
            return mk('map', cat(e, one(entry)))
        if m.op == 'ite':
            return ite(m.a[0], self.map_ext(m.a[1], entry), self.map_ext(m.a[2], entry))
        return mk('map', cat(one(mk('base', m)), one(entry)))

    def mins(self, m, k, v):
        return self.map_ext(m, mk('tup', k, v))

    def _mlook(self, m, k):
        if m.op == 'map':
            e = m.a[0]
            segs = list(e.a) if e.op == 'cat' else ([] if e is EMPTY else [e])
            while segs:
                s = segs[-1]
                if s.op == 'arr' and s.a[0] is I(1):
                    x = inst(s, I(0))
                    if x.op == 'tup':
                        c = eqt(x.a[0], k)
                        if c is TRUE:
                            return TRUE, x.a[1]
                        if c is FALSE:
                            segs.pop()
                            continue
                    if x.op == 'ori' and eqt(x.a[0], k) is TRUE:
                        return TRUE, self.mgetor(mk('map', cat(*segs[:-1])), k, x.a[1])
                    if x.op in ('ori', 'acc') and eqt(x.a[0], k) is FALSE:
                        segs.pop()
                        continue
                    if x.op == 'del':
                        c = eqt(x.a[0], k)
                        if c is TRUE:
                            return FALSE, NOTHING
                        if c is FALSE:
                            segs.pop()
                            continue
                break
            if not segs:
                return FALSE, NOTHING
            m2 = mk('map', cat(*segs))
            return mk('mhas', m2, k), mk('mget', m2, k)
        return mk('mhas', m, k), mk('mget', m, k)

    def mget(self, m, k):
        return self._mlook(m, k)[1]

    def mgetor(self, m, k, d):
        h, v = self._mlook(m, k)
        if h is TRUE:
            return v
        if h is FALSE:
            return d
        return mk('mgetor', v.a[0], k, d)

    # ------------------------------------------------------------ entry points
    def mkparam(self, name, ty, depth=0):
        b = base_ty(ty)
        if b.startswith('&') and depth == 0:
            pass
        if is_gf(ty):
            return atom(name, b)
        head = b.split('<')[0]
        a = self.p.adts.get(head) or self._adt(head)
        if a and a['dk'] == 'Struct' and depth < 6:
            fs = []
            for f in a['variants'][0]['fields']:
                fs.append((f['n'], self.mkparam(name + '.' + f['n'], a['_tys'][f['t']], depth + 1)))
            return mk('struct', a['path'], tuple(fs))
        if b.startswith('(') and b.endswith(')') and b != '()':
            parts = split_top(b[1:-1])
            return mk('tup', *[self.mkparam(name + '.%d' % i, x, depth + 1) for i, x in enumerate(parts)])
        return atom(name, b)

    def _adt(self, head):
        for k, a in self.p.adts.items():
            if strip(k) == head:
                return a
        return None

    def call_fn(self, path, args=None, consts=None, force=True):
        b = self.p.fn(path)
        if b is None:
            raise KeyError(path)
        if args is None:
            args = self.params_of(b)
        r = self.call_body(b, args, consts or {}, None)
        return self.force(r) if force else r

    def params_of(self, b):
        out = []
        for i, p in enumerate(b['params']):
            n = p.get('n', 'arg%d' % i)
            ty = b['_tys'][b['ins'][i]]
            v = self.mkparam(n, ty)
            if re.match(r"&('\w+ )?mut ", ty):
                v = mk('ref', self.alloc(v), ())
            out.append(v)
        return out

    def force(self, t):
        if t.op == 'fut':
            return self.run_fut(t)
        return t

    # ------------------------------------------------------------ calls
    def call_body(self, b, args, consts, site):
        path = b['path']
        if self.depth > RECLIM or sum(1 for s in self.stack if s[0] == path) >= self.reclim:
            return mk('call', strip(path), *[self.val(a) for a in args])
        if b.get('async'):
            k = len(self.futs) + 1
            self.futs[k] = (b, list(args), dict(consts), None, site)
            return mk('fut', k)
        return self.enter(b, args, consts, site)

    def enter(self, b, args, consts, site, node=None, env=None):
        self.ncalls += 1
        self.analysed.add(b['path'])
        fr = Frame(dict(env or {}), b, b['_tys'], dict(consts))
        old = self.fr
        fr.site = site
        sv = (self.live, self.loopfr, self.pc_local())
        pc0 = self.pc
        self.pc = band(pc0, self.live)
        self.live = TRUE
        self.pcl = TRUE
        self.loopfr = []
        fr.s0 = dict(self.store)
        self.fr = fr
        self.stack.append((b['path'], site))
        self.depth += 1
        try:
            for p, a in zip(b['params'], args):
                self.bind(p, a)
            body = b['body']
            if body.get('k') == 'Closure' and body.get('ck') == 'async_fn':
                r = self.ev(body['body'])
            else:
                r = self.ev(body)
            r = self.finish(r, fr)
        finally:
            self.fr = old
            self.stack.pop()
            self.depth -= 1
            self.live, self.loopfr, self.pcl = sv
            self.pc = pc0
        return r

    def finish(self, r, fr):
        if fr.rets:
            res_ = r if self.live is not FALSE else NOTHING
            if res_.op == 'ref':
                res_ = res_
            dead = self.live is FALSE
            for c, v, snap in reversed(fr.rets):
                res_ = ite(c, v, res_) if res_ is not NOTHING else v
                for a, x0 in fr.s0.items():
                    cur = self.store.get(a, x0)
                    if snap is None:
                        if cur is not x0:
                            self.store[a] = self.join(c, mk('unk', 'returned from a loop', x0), cur)
                        continue
                    x = snap.get(a, x0)
                    if dead:
                        self.store[a] = x
                    elif x is not cur:
                        self.store[a] = self.join(c, x, cur)
                dead = False
            return res_
        return r

    def run_fut(self, t):
        b, args, consts, clo, site = self.futs[t.a[0]]
        if clo is not None:
            return self.call_clo(clo, [], force_async=True)
        return self.enter(b, args, consts, site)

    def call_val(self, f, args, n):
        f = self.val(f)
        if f.op == 'clo':
            self.path.append((n.get('ln'), n.get('col')) if n else None)
            try:
                return self.call_clo(f, args)
            finally:
                self.path.pop()
        if f.op == 'fnv':
            return self.call_path(f.a[0], f.a[1], dict(f.a[2]), args, n, [None] * len(args), f.a[3])
        if f.op == 'ctorf':
            return self.construct(f.a[0], args)
        if f.op in ('ite', 'case'):
            pass
        return self.unk('call-value', n, f, *[self.val(a) for a in args])

    def call_clo(self, f, args, force_async=False):
        node, fr0 = self.clos[f.a[0]]
        if node['ck'] != 'closure' and not force_async:
            k = len(self.futs) + 1
            self.futs[k] = (None, None, None, f, None)
            return mk('fut', k)
        if self.depth > RECLIM:
            return mk('unk', 'depth')
        fr = Frame(dict(fr0.env), fr0.body, fr0.tys, fr0.consts)
        old = self.fr
        sv = (self.live, self.loopfr, self.pc_local())
        pc0 = self.pc
        self.pc = band(pc0, self.live)
        self.live = TRUE
        self.pcl = TRUE
        fr.s0 = dict(self.store)
        self.loopfr = []
        self.fr = fr
        self.depth += 1
        try:
            for p, a in zip(node['params'], args):
                self.bind(p, a)
            r = self.ev(node['body'])
            r = self.finish(r, fr)
        finally:
            self.fr = old
            self.depth -= 1
            self.live, self.loopfr, self.pcl = sv
            self.pc = pc0
        return r

    # ------------------------------------------------------------ patterns
    def bind(self, p, v):
        c = self.match(p, v)
        return c

    def match(self, p, v):
        """Bind pattern variables; returns the condition under which the pattern matches."""
        k = p['k']
        if k == 'Wild':
            return TRUE
        if k == 'Bind':
            ty = self.fr.tys[p['t']] if 't' in p else ''
            if p.get('byref') and v.op != 'ref':
                pass
            self.typed(v, ty)
            c = TRUE
            if p.get('sub'):
                c = self.match(p['sub'], v)
            self.fr.env[p['id']] = self.alloc(v)
            return c
        if k == 'Ref':
            return self.match(p['p'] if 'p' in p else p['e'], self.val(v))
        if k == 'Tuple':
            return self.match_list(p, v, lambda i: ('f', str(i)))
        if k in ('TStruct', 'Struct', 'Path'):
            pp = p.get('path', p)
            if pp.get('r') == 'selfctor' or pp.get('r') == 'selfty':
                name = None
            else:
                name = strip(pp.get('def', '?'))
            return self.match_ctor(p, v, name)
        if k == 'Or':
            cs = []
            for q in p['ps']:
                cs.append(self.match(q, v))
            return bor(*cs)
        if k == 'Lit':
            x = self.val(v)
            e = self.lit(p['e'] if 'e' in p else p)
            return eqt(x, e, 'bool' if e.op == 'bool' else ('int' if e.op == 'int' else None))
        if k == 'Guard':
            return self.match(p['p'], v)
        if k == 'Range':
            return mk('inrange', self.val(v), str(p.get('lo')), str(p.get('hi')))
        if k == 'Slice':
            return self.match_list(p, v, lambda i: ('i', I(i)))
        return mk('patcond', k, self.val(v))

    def subval(self, v, p):
        if v.op == 'ref':
            return mk('ref', v.a[0], v.a[1] + (p,))
        return self.sel(v, p)

    def match_list(self, p, v, mkp):
        ps = p.get('ps', [])
        dd = p.get('dd')
        c = TRUE
        n = len(ps)
        for i, q in enumerate(ps):
            j = i
            if dd is not None and i >= dd and p['k'] == 'Tuple':
                vv = self.val(v)
                if vv.op == 'tup':
                    j = i + (len(vv.a) - n)
            c = band(c, self.match(q, self.subval(v, mkp(j))))
        return c

    def match_ctor(self, p, v, name):
        ps = p.get('ps', [])
        short = name.split('::')[-1] if name else None
        if name and (name.startswith('std::') or name.startswith('core::')):
            x = self.val(v)
            if short == 'Some':
                c = is_some(x)
                if ps:
                    c = band(c, self.match(ps[0], self.subval(v, ('opt',))))
                return c
            if short == 'None':
                return bnot(is_some(x))
            if short == 'Ok':
                c = is_ok(x)
                if ps:
                    c = band(c, self.match(ps[0], ok_val(x)))
                return c
            if short == 'Err':
                c = bnot(is_ok(x))
                if ps:
                    c = band(c, self.match(ps[0], err_val(x)))
                return c
            if short in ('Less', 'Equal', 'Greater'):
                if x.op == 'ordering':
                    a, b = x.a
                    if short == 'Less':
                        return lt(a, b)
                    if short == 'Equal':
                        return eq0(sub(a, b))
                    return lt(b, a)
        if name in ADTS:
            x = self.val(v)
            c = isv(x, name)
            if p['k'] == 'Struct':
                a = self.p.adts.get(name.rsplit('::', 1)[0])
                order = []
                if a:
                    for vv in a['variants']:
                        if vv['n'] == short:
                            order = [f['n'] for f in vv['fields']]
                for f in p.get('fs', []):
                    i = order.index(f['n']) if f['n'] in order else 0
                    c = band(c, self.match(f['p'], vfield(x, name, i)))
                return c
            for i, q in enumerate(ps):
                if v.op == 'ref':
                    c = band(c, self.match(q, mk('ref', v.a[0], v.a[1] + (('vf', name, i),))))
                else:
                    c = band(c, self.match(q, vfield(x, name, i)))
            return c
        # plain struct
        c = TRUE
        if p['k'] == 'Struct':
            for f in p.get('fs', []):
                c = band(c, self.match(f['p'], self.subval(v, ('f', f['n']))))
            return c
        if p['k'] == 'TStruct' and not (name and name[0].isupper() is False and name.split('::')[-2:-1] == ['Poll']):
            for i, q in enumerate(ps):
                c = band(c, self.match(q, self.subval(v, ('f', str(i)))))
            if name and ('Poll' in name or 'Out::' in name):
                c = band(c, mk('is', self.val(v), name))
            return c
        if p['k'] == 'Path':
            x = self.val(v)
            if p.get('dk', '').startswith(('Const', 'AssocConst')):
                return eqt(x, self.const_path(p))
            return mk('is', x, name or '?')
        return TRUE

    def lit(self, n):
        lk = n.get('lk')
        if lk == 'int':
            return I(int(n['v']) if 'v' in n else int(n['vs']))
        if lk == 'bool':
            return TRUE if n['v'] else FALSE
        if lk == 'str':
            return S(n.get('v', n.get('vs', '')))
        if lk == 'bytes':
            return lst(*[I(ord(x)) for x in n.get('v', n.get('vs', ''))])
        return mk('lit', lk or '?', str(n.get('v', n.get('vs', ''))))

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.unk('expr-' + k, n)
        r = m(n)
        if 't' in n:
            self.typed(r, self.ty(n))
        return r

    def rv(self, n):
        """Evaluate to a value (references read through)."""
        return self.val(self.ev(n))

    def e_Lit(self, n):
        r = self.lit(n)
        if 'ln' in n and r.op == 'int' and is_gf(self.ty(n)):
            return gfint(r)
        return r

    def e_Path(self, n):
        r = n.get('r')
        if r == 'local':
            a = self.fr.env.get(n['id'])
            if a is None:
                return self.unk('local ' + n.get('n', '?'), n)
            return self.store.get(a, NOTHING)
        if r == 'selfctor':
            return mk('ctorf', base_ty(self._ctor_ty(n)).split('<')[0])
        if r == 'def':
            dk = n['dk']
            if dk.startswith('Ctor'):
                name = strip(n['def'])
                if 'Const' in dk:
                    return self.unit_ctor(name)
                return mk('ctorf', name)
            if dk in ('Fn', 'AssocFn'):
                return mk('fnv', n['def'], n.get('res') or '', tuple(sorted(self.gargs(n).items())), tuple(n.get('ga', ())))
            if dk == 'ConstParam':
                nm = n['def'].split('::')[-1]
                if nm in self.fr.consts:
                    return self.fr.consts[nm]
                return atom('const ' + nm, 'usize')
            if dk in ('Const', 'AssocConst'):
                return self.const_path(n)
            if dk.startswith('Static'):
                return self.static_ref(n)
        return self.unk('path', n)

    def static_ref(self, n):
        # one cell per static item, shared by all instances of a generic function
        d = strip(n['def'])
        a = self.statics.get(d)
        if a is None:
            b = self.p.bypath.get(d)
            if b is None or 'body' not in b:
                return mk('static', n['def'])
            a = self.statics[d] = self.alloc(NOTHING)
            self.store[a] = self.val(self.enter(b, [], {}, None))
        return mk('ref', a, ())

    def _ctor_ty(self, n):
        # type of a tuple-struct constructor function: fn(..) -> T {..}
        t = self.ty(n)
        m = re.search(r'-> ([^{]+)', t)
        return m.group(1).strip() if m else t

    def unit_ctor(self, name):
        sh = name.split('::')[-1]
        if sh == 'None':
            return NONE
        if name in ADTS:
            return mk('ctor', name)
        return mk('ctor', name)

    def const_path(self, n):
        b = self.p.bodies.get(n.get('res') or '') or self.p.bypath.get(strip(n['def']))
        name = strip(n['def'])
        if name.endswith('GF::ZERO') or name.endswith('GF::ONE'):
            if not self.inline_gf and not RAW[0]:
                return GZERO if name.endswith('ZERO') else GONE
        if name.endswith('::MAX') and name.startswith('core::num'):
            t = base_ty(self.ty(n)) if 't' in n else ''
            if t in BITS and t.startswith('u'):
                return I((1 << BITS[t]) - 1)
        if b is not None and 'body' in b:
            return self.enter(b, [], self.gargs(n), self.loc(n))
        return mk('const', name)

    def gargs(self, n):
        """Generic parameter name -> value (const generics) for a resolved callee."""
        b = self.p.bodies.get(n.get('res') or '') or self.p.bypath.get(strip(n.get('def', '')))
        out = {}
        if b is None:
            return out
        gs = b.get('generics', [])
        ga = [g for g in n.get('ga', [])]
        if len(gs) == len(ga):
            for g, a in zip(gs, ga):
                if re.fullmatch(r'\d+(_?[ui]\w+)?', a):
                    out[g] = I(int(re.match(r'\d+', a).group(0)))
                elif a in self.fr.consts:
                    out[g] = self.fr.consts[a]
        # constants of an implementation, from the type it is selected for
        st = b['_tys'][b['self_ty']] if 'self_ty' in b else ''
        for g in gs:
            if g not in out and re.search(r'<%s>' % re.escape(g), st):
                h = base_ty(st).split('<')[0]
                for a in ga:
                    m = re.search(re.escape(h) + r'<(\w+)>', a)
                    if m:
                        x = m.group(1)
                        if x[0].isdigit():
                            out[g] = I(int(re.match(r'\d+', x).group(0)))
                        elif x in self.fr.consts:
                            out[g] = self.fr.consts[x]
                        break
        return out

    def e_ConstBlock(self, n):
        b = self.p.bodies.get(n.get('res') or '')
        if b is None or 'body' not in b:
            return self.unk('expr-ConstBlock', n)
        return self.enter(b, [], self.fr.consts, self.loc(n))

    def e_Tup(self, n):
        return mk('tup', *[self.ev(x) for x in n['a']])

    def e_Array(self, n):
        return lst(*[self.rv(x) for x in n['a']])

    def e_Repeat(self, n):
        v = self.rv(n['e'])
        ln = None
        m = re.search(r'; (\w+)\]$', self.ty(n))
        if m:
            if m.group(1).isdigit():
                ln = I(int(m.group(1)))
            elif m.group(1) in self.fr.consts:
                ln = self.fr.consts[m.group(1)]
        if ln is None:
            ln = mk('unk', 'repeat-len')
        return mk('arr', ln, 1 + v.hb, v)

    def e_Block(self, n):
        mac = n.get('mac') or []
        if any(s.get('k') == 'SItem' and s['def'].endswith('__tokio_select_util') for s in n.get('st', [])):
            return self.select(n)
        if mac[-1:] in (['tokio::join'], ['tokio::try_join']) or any('tokio::join' in (s.get('mac') or []) or 'tokio::try_join' in (s.get('mac') or [])
                                                                     for s in n.get('st', [])):
            r = self.join_all(n)
            if r is not None:
                return r
        for s in n.get('st', []):
            self.stmt(s)
            if self.live is FALSE:
                return NOTHING
        if n.get('e'):
            return self.ev(n['e'])
        return UNIT

    def stmt(self, s):
        k = s['k']
        if k == 'SLet':
            if s.get('e'):
                v = self.ev(s['e'])
                if s.get('els'):
                    c = self.match(s['p'], v)
                    if c is not TRUE:
                        self.branch(c, lambda: UNIT, lambda: self.ev(s['els']))
                    return
                if self.live is FALSE:
                    return
                self.match(s['p'], v)
            else:
                self.match(s['p'], NOTHING)
        elif k == 'SItem':
            pass
        else:
            self.ev(s)

    def e_Ret(self, n):
        v = self.ev(n['e']) if n.get('e') else UNIT
        self.do_ret(self.val(v) if v.op == 'ref' else v)
        return NOTHING

    def do_ret(self, v, extra=TRUE):
        c = band(self.pc_local(), self.live, extra)
        if self.loopfr and self.loopfr[-1].get('w'):
            self.loopfr[-1]['breaks'].append((c, self.snapshot(), v, True))
            if extra is TRUE:
                self.live = FALSE
            else:
                self.live = band(self.live, bnot(extra))
            return
        if any(lf.get('w') for lf in self.loopfr):
            raise NoWhile()
        for lf in reversed(self.loopfr):
            lf['rets'] = True
        # leaving enclosing loops: exists an iteration
        if self.loopfr:
            for lf in reversed(self.loopfr):
                if lf.get('v') is not None:
                    c = binder('exists', lf['n'], lf['v'], c) if lf['v'] in c.fv else c
                    if lf['v'] in v.fv:
                        v = mk('first', v)
            lf0 = self.loopfr[0]
            lf0.setdefault('retc', []).append(c)
        self.fr.rets.append((c, v, None if self.loopfr else self.snapshot()))
        if extra is TRUE:
            self.live = FALSE
        else:
            self.live = band(self.live, bnot(extra))

    def pc_local(self):
        # path condition accumulated inside the current function
        return getattr(self, 'pcl', TRUE)

    def e_Try(self, n):
        v = self.rv(n['e'])
        ty = base_ty(self.ty(n['e']))
        if 'Option<' in ty.split('<')[0] + '<':
            c = is_some(v)
            if c is not TRUE:
                self.do_ret(NONE, bnot(c))
            return opt_val(v)
        c = is_ok(v)
        if c is not TRUE:
            self.do_ret(res(FALSE, NOTHING, err_val(v)), bnot(c))
        return ok_val(v)

    def snapshot(self):
        return dict(self.store)

    def branch(self, c, f, g):
        """Evaluate two alternatives and join their effects."""
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s0 = self.snapshot()
        live0, pc0, pcl0 = self.live, self.pc, self.pc_local()
        self.pc = band(pc0, c)
        self.pcl = band(pcl0, c)
        r1 = f() if self.pc is not FALSE else NOTHING
        s1, l1 = self.store, self.live
        self.store = dict(s0)
        # addresses allocated in the first branch stay visible
        for a, v in s1.items():
            if a not in self.store:
                self.store[a] = v
        self.live = live0
        self.pc = band(pc0, bnot(c))
        self.pcl = band(pcl0, bnot(c))
        r2 = g() if self.pc is not FALSE else NOTHING
        s2, l2 = self.store, self.live
        self.pc, self.pcl = pc0, pcl0
        if l1 is FALSE and l2 is FALSE:
            self.live = FALSE
            return NOTHING
        if l1 is FALSE:
            self.live = self.join_live(c, l1, l2)
            self.store = s2
            for a, v in s1.items():
                if a not in s2:
                    s2[a] = v
            return r2
        if l2 is FALSE:
            self.live = self.join_live(c, l1, l2)
            self.store = s1
            for a, v in s2.items():
                if a not in s1:
                    s1[a] = v
            return r1
        out = {}
        for a in set(s1) | set(s2):
            x, y = s1.get(a), s2.get(a)
            if x is None:
                out[a] = y
            elif y is None or x is y:
                out[a] = x
            else:
                out[a] = self.join(c, x, y)
        self.store = out
        self.live = self.join_live(c, l1, l2)
        if r1 is r2:
            return r1
        return self.join(c, r1, r2)

    def join_live(self, c, l1, l2):
        return ite(c, l1, l2) if l1 is not l2 else l1

    def join(self, c, x, y):
        if x is y:
            return x
        if x.op == 'ref' or y.op == 'ref':
            if x.op == 'ref' and y.op == 'ref' and x is y:
                return x
            x, y = self.val(x), self.val(y)
        return ite(c, x, y)

    def cond(self, n):
        """Evaluate a condition expression (may bind through `if let`)."""
        return self.rv(n)

    def e_If(self, n):
        c = self.cond(n['c'])
        # assertion shape: one side diverges by panicking
        th, el = n['th'], n.get('el')
        if self.is_panic(th) and not el:
            self.asserts.append((bnot(c), self.loc(n), self.pc))
            self.note_panic(n, c)
            return UNIT
        if el is not None and self.is_panic(el):
            self.note_panic(n, bnot(c))
            return self.ev(th)
        if self.is_panic(th):
            self.note_panic(n, c)
            return self.ev(el)
        return self.branch(c, lambda: self.ev(th), lambda: self.ev(el) if el else UNIT)

    def note_panic(self, n, c):
        if c is not FALSE:
            self.seq += 1
            self.events.append(Ev('panic', (c,), band(self.pc, self.live), tuple(self.loops), self.loc(n),
                                  self.fr.body['path'] if self.fr.body else '?', tuple(self.stack), self.seq, self.task))

    def is_panic(self, n):
        """Block whose only effect is to panic."""
        k = n['k']
        if k == 'Block':
            if n.get('e'):
                return self.is_panic(n['e'])
            if n.get('st'):
                return self.is_panic(n['st'][-1])
            return False
        if k == 'Call' and n['f']['k'] == 'Path':
            d = n['f'].get('def', '')
            return d.startswith(('core::panicking::', 'std::rt::panic', 'std::panicking', 'std::rt::begin_panic', 'core::option::unwrap_failed'))
        return False

    def e_LetE(self, n):
        v = self.ev(n['e'])
        return self.match(n['p'], v)

    def e_Match(self, n):
        v = self.ev(n['e'])
        if self.live is FALSE:
            return NOTHING
        arms = n['arms']

        def go(i):
            if i >= len(arms):
                return NOTHING
            a = arms[i]
            env0 = dict(self.fr.env)
            c = self.match(a['p'], v)
            if a.get('g'):
                if c is not FALSE:
                    pc0, pcl0 = self.pc, self.pc_local()
                    self.pc, self.pcl = band(pc0, c), band(pcl0, c)
                    g = self.rv(a['g'])
                    self.pc, self.pcl = pc0, pcl0
                    c = band(c, g)
            if self.is_panic(a['b']):
                self.note_panic(a['b'], c)
                if c is TRUE:
                    self.live = FALSE
                    return NOTHING
                self.fr.env = dict(env0)
                return go(i + 1)
            if i == len(arms) - 1 and not a.get('g'):
                r = self.ev(a['b'])
                return r
            if c is FALSE:
                return go(i + 1)
            return self.branch(c, lambda: self.ev(a['b']), lambda: go(i + 1))
        # arms that can only panic at the end: treat previous as exhaustive
        while len(arms) > 1 and self.is_panic(arms[-1]['b']) and not arms[-1].get('g'):
            env0 = dict(self.fr.env)
            cs = [self.match(a['p'], v) for a in arms[:-1] if not a.get('g')]
            last = self.match(arms[-1]['p'], v)
            self.fr.env = env0
            self.note_panic(arms[-1]['b'], band(last, *[bnot(x) for x in cs]))
            arms = arms[:-1]
        return go(0)

    def e_Await(self, n):
        v = self.rv(n['e'])
        return self.await_(v, n)

    def under(self, cond, f):
        pc = self.pc
        self.pc = band(pc, cond)
        try:
            return f()
        finally:
            self.pc = pc

    def await_(self, v, n):
        if v.op == 'fut':
            self.event('await', n, v)
            self.path.append((n.get('ln'), n.get('col')))
            try:
                return self.run_fut(v)
            finally:
                self.path.pop()
        if v.op == 'at' and contains(v, lambda x: x.op == 'perm'):
            # whichever task finished
            v = mk('joinh', mk('taskres', v), mk('taskof', v))
        if v.op == 'at':
            v = self.handle_at(v)
        if v.op == 'both':
            return mk('tup', *[self.await_(x, n) for x in v.a])
        if v.op == 'joinh':
            self.event('join', n, v)
            if self.joinfail:
                return res(mk('joined', v.a[1]), v.a[0], mk('joinerr', v.a[1]))
            return res(TRUE, v.a[0], NOTHING)
        if v.op == 'afut':
            # library future with a known result
            kind = v.a[0]
            if kind == 'recv':
                return self.do_recv(v, n)
            return v.a[1]
        if v.op == 'ite':
            return ite(v.a[0], self.under(v.a[0], lambda: self.await_(v.a[1], n)), self.under(bnot(v.a[0]), lambda: self.await_(v.a[2], n)))
        if v.op == 'case':
            return case(v.a[0], {w: self.under(isv(v.a[0], w), lambda: self.await_(x, n)) for w, x in v.a[1]})
        self.event('await', n, v)
        return mk('awaited', v)

    def handle_at(self, v):
        """An element of a sequence of handles as a handle of an element."""
        def split(s):
            if s.op == 'cat':
                xs = [split(x) for x in s.a]
                return None if None in xs else (cat(*[x for x, _ in xs]), cat(*[y for _, y in xs]))
            if s.op == 'arr' and s.a[2].op == 'joinh':
                return mk('arr', s.a[0], s.a[1], s.a[2].a[0]), mk('arr', s.a[0], s.a[1], s.a[2].a[1])
            if s.op == 'lst' and all(x.op == 'joinh' for x in s.a):
                return lst(*[x.a[0] for x in s.a]), lst(*[x.a[1] for x in s.a])
            return None
        s = split(v.a[0])
        return v if s is None else mk('joinh', at(s[0], v.a[1]), at(s[1], v.a[1]))

    def do_recv(self, v, n):
        return v.a[1]

    def e_Closure(self, n):
        k = len(self.clos) + 1
        self.clos[k] = (n, self.fr)
        c = mk('clo', k)
        if n['ck'] in ('async_block', 'async_fn'):
            kk = len(self.futs) + 1
            # snapshot of the environment: later rebinding of the same names must not matter
            fr = Frame(dict(self.fr.env), self.fr.body, self.fr.tys, self.fr.consts)
            self.clos[k] = (n, fr)
            self.futs[kk] = (None, None, None, c, None)
            return mk('fut', kk)
        fr = Frame(dict(self.fr.env), self.fr.body, self.fr.tys, self.fr.consts)
        self.clos[k] = (n, fr)
        return c

    def e_Un(self, n):
        op = n['op']
        if op == '*':
            return self.val(self.ev(n['e']))
        v = self.rv(n['e'])
        if op == '!':
            if base_ty(self.ty(n['e'])) == 'bool':
                return bnot(v)
            return mk('bitnot', v)
        if op == '-':
            if is_int(self.ty(n)):
                return neg(v)
            return v if is_gf(self.ty(n)) else self.unk('neg', n, v)
        return self.unk('un' + op, n, v)

    def e_Cast(self, n):
        v = self.rv(n['e'])
        s, t = base_ty(self.ty(n['e'])), base_ty(self.ty(n))
        if s in BITS and t in BITS:
            if BITS[t] < BITS[s] and not (v.op == 'int' and 0 <= v.a[0] < (1 << (BITS[t] - 1))):
                return mk('trunc', BITS[t], v)
            return v
        if s == 'bool' and t in BITS:
            return ite(v, I(1), I(0))
        return v

    def binop(self, op, a, b, lt_, rt, ty, n):
        la, lb = is_nd(lt_), is_nd(rt)
        if la or lb:
            return self.nd_bin(op, a, b, rank(lt_), rank(rt), nd_gf(lt_) or nd_gf(rt) or is_gf(lt_) or is_gf(rt), n)
        if is_gf(lt_) or is_gf(rt):
            return self.gf_bin(op, a, b, n)
        if base_ty(lt_) == 'bool':
            if op in ('&&', '&'):
                return band(a, b)
            if op in ('||', '|'):
                return bor(a, b)
            if op in ('!=', '^'):
                return bor(band(a, bnot(b)), band(bnot(a), b)) if a.op != 'bool' and b.op != 'bool' else (bnot(a) if b is TRUE else a if b is FALSE else bnot(b) if a is TRUE else b)
            if op == '==':
                x = self.binop('!=', a, b, 'bool', 'bool', 'bool', n)
                return bnot(x)
        if op in ('==', '!='):
            kind = 'int' if is_int(lt_) else None
            r = self.eq_values(a, b, lt_, rt)
            return r if op == '==' else bnot(r)
        if is_int(lt_):
            return self.int_bin(op, a, b, n)
        if op in ('<', '<=', '>', '>='):
            return mk('cmp' + op, a, b)
        return self.unk('bin' + op, n, a, b)

    def eq_values(self, a, b, lt_, rt):
        if is_int(lt_):
            return eqt(a, b, 'int')
        if is_gf(lt_):
            return gfeq(a, b)
        if a is b:
            return TRUE
        return eqt(a, b)

    def int_bin(self, op, a, b, n):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return fdiv(a, b)
        if op == '%':
            return fmod(a, b)
        if op == '<':
            return lt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>':
            return lt(b, a)
        if op == '>=':
            return le(b, a)
        if op == '==':
            return eqt(a, b, 'int')
        if op == '!=':
            return bnot(eqt(a, b, 'int'))
        if op == '<<' and a.op == 'int' and b.op == 'int':
            return I(a.a[0] << b.a[0])
        if op == '<<' and a is I(1):
            return mk('pow2', b)
        if op == '>>' and a.op == 'int' and b.op == 'int':
            return I(a.a[0] >> b.a[0])
        if op == '>>' and b.op == 'int':
            return fdiv(a, I(1 << b.a[0]))
        if op == '^':
            if a.op == 'gfval' or b.op == 'gfval':
                return gfval(gadd(gfint(a), gfint(b)))
            if a is b:
                return I(0)
            return comm('xor', a, b)
        if op in ('&', '|'):
            if a.op == 'int' and b.op == 'int':
                return I(a.a[0] & b.a[0] if op == '&' else a.a[0] | b.a[0])
            return comm('bit' + op, a, b)
        return mk('int' + op, a, b)

    def gf_bin(self, op, a, b, n):
        if op in ('+', '-'):
            return gadd(a, b)
        if op == '*':
            return gmul(a, b)
        if op == '/':
            return gdiv(a, b)
        if op == '==':
            return gfeq(a, b)
        if op == '!=':
            return bnot(gfeq(a, b))
        return self.unk('gf' + op, n, a, b)

    def nd_bin(self, op, a, b, ra, rb, gf, n):
        if op in ('==', '!='):
            r = eqt(a, b)
            return r if op == '==' else bnot(r)
        r = max(ra, rb)

        def sc(x, y):
            return self.gf_bin(op, x, y, n) if gf else self.int_bin(op, x, y, n)

        def go(x, y, rx, ry):
            if rx == 0 and ry == 0:
                return sc(x, y)
            k = max(rx, ry)
            if rx < k:
                m = length(y)
                v = fresh(m)
                return arr(m, v, go(x, at(y, v), rx, ry - 1))
            if ry < k:
                m = length(x)
                v = fresh(m)
                return arr(m, v, go(at(x, v), y, rx - 1, ry))
            nx, ny = length(x), length(y)
            if nx is I(1) and ny is not I(1):
                v = fresh(ny)
                return arr(ny, v, go(at(x, I(0)), at(y, v), rx - 1, ry - 1))
            if ny is I(1) and nx is not I(1):
                v = fresh(nx)
                return arr(nx, v, go(at(x, v), at(y, I(0)), rx - 1, ry - 1))
            m = nx
            if nx.op == 'len' and ny.op != 'len':
                m = ny
            if m.op == 'int' and m.a[0] <= 8:
                return lst(*[go(at(x, I(i)), at(y, I(i)), rx - 1, ry - 1) for i in range(m.a[0])])
            # piecewise: keep literal row structure
            for s, o, sw in ((x, y, 0), (y, x, 1)):
                if s.op == 'cat':
                    out = []
                    off = I(0)
                    for seg in s.a:
                        ln = length(seg)
                        osl = seqslice(o, off, add(off, ln))
                        v = fresh(ln)
                        p_, q_ = at(seg, v), at(osl, v)
                        out.append(arr(ln, v, go(p_, q_, rx - 1, ry - 1) if not sw else go(q_, p_, rx - 1, ry - 1)))
                        off = add(off, ln)
                    return cat(*out)
            v = fresh(m)
            return arr(m, v, go(at(x, v), at(y, v), rx - 1, ry - 1))
        return go(a, b, ra, rb)

    def e_Bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            a = self.rv(n['l'])
            if op == '&&':
                if a is FALSE:
                    return FALSE
                r = self.branch(a, lambda: self.rv(n['rh']), lambda: FALSE)
                return r
            if a is TRUE:
                return TRUE
            return self.branch(a, lambda: TRUE, lambda: self.rv(n['rh']))
        a = self.rv(n['l'])
        b = self.rv(n['rh'])
        lt_, rt = self.ty(n['l']), self.ty(n['rh'])
        if n.get('res') in self.p.bodies and not self.gf_prim(self.p.bodies[n['res']]):
            r = self.val(self.call_body(self.p.bodies[n['res']], [a, b], self.gargs(n), self.loc(n)))
            return bnot(r) if op == '!=' else r
        if op == '/' and is_gf(lt_):
            self.event('gfdiv', n, a, b)
        if op in ('/', '%') and is_int(lt_):
            self.event('intdiv', n, a, b)
        if op == '-' and is_int(lt_):
            self.event('intsub', n, a, b)
        return self.binop(op, a, b, lt_, rt, self.ty(n), n)

    def e_AssignOp(self, n):
        op = n['op'].rstrip('=')
        pl = self.place(n['l'])
        b = self.rv(n['rh'])
        if pl and n.get('res') in self.p.bodies and not self.gf_prim(self.p.bodies[n['res']]):
            self.call_body(self.p.bodies[n['res']], [mk('ref', pl[0], pl[1]), b], self.gargs(n), self.loc(n))
            return UNIT
        a = self.read(*pl) if pl else self.rv(n['l'])
        a = self.val(a)
        if op == '-' and is_int(self.ty(n['l'])):
            self.event('intsub', n, a, b)
        r = self.binop(op, a, b, self.ty(n['l']), self.ty(n['rh']), self.ty(n['l']), n)
        if pl:
            self.write(pl[0], pl[1], r)
        else:
            self.unk('assign-place', n)
        return UNIT

    def e_Assign(self, n):
        v = self.ev(n['rh'])
        l = n['l']
        if self.live is FALSE:
            return NOTHING
        if l['k'] == 'Path' and l.get('r') == 'local':
            a = self.fr.env.get(l['id'])
            if a is not None:
                cur = self.store.get(a)
                # a plain local is rebound; a &mut local is rebound only by a reference
                self.store[a] = v
                return UNIT
        if l['k'] in ('Tup',):
            for i, x in enumerate(l['a']):
                if x['k'] == 'Path' and x.get('r') == 'local':
                    self.store[self.fr.env[x['id']]] = field(self.val(v), str(i))
            return UNIT
        pl = self.place(l)
        if pl:
            self.write(pl[0], pl[1], self.val(v))
        elif l['k'] == 'Path' and l.get('r') != 'local':
            pass
        else:
            self.unk('assign-place', n)
        return UNIT

    def e_Field(self, n):
        v = self.ev(n['e'])
        if v.op == 'ref':
            inner = self.val(v)
            return self.field_of(inner, n)
        return self.field_of(v, n)

    def field_of(self, v, n):
        v = self.val(v)
        if is_gf(self.ty(n['e'])) and n['n'] == '0':
            return gfval(v)
        r = field(v, n['n'])
        return r

    def e_Index(self, n):
        s = self.rv(n['e'])
        i = self.rv(n['i'])
        return self.index(s, i, n)

    def index(self, s, i, n):
        st = self.ty(n['e'])
        bt = base_ty(st)
        if i.op == 'range':
            lo, hi = i.a
            h = length(s) if hi is NOTHING else hi
            self.event('slice', n, s, lo, h)
            return seqslice(s, lo, h)
        if bt.startswith('std::collections::HashMap') or bt.startswith('std::collections::BTreeMap'):
            return self.mget(s, i)
        if is_nd(st) and (i.op in ('tup', 'cat') or (i.op == 'arr' and i.a[0].op == 'int')):
            idx = list(i.a) if i.op == 'tup' else [at(i, I(k)) for k in range(length(i).a[0])]
            for k in idx:
                s = at(s, k)
            return s
        if bt.startswith('json::') or bt.startswith('serde_json'):
            return field(s, i.a[0]) if i.op == 'str' else mk('jget', s, i)
        self.event('index', n, s, i)
        return at(s, i)

    def e_Ref(self, n):
        if n.get('mut'):
            pl = self.place(n['e'])
            if pl:
                return mk('ref', pl[0], pl[1])
            return mk('ref', self.alloc(self.rv(n['e'])), ())
        v = self.ev(n['e'])
        return self.val(v)

    def e_Struct(self, n):
        p = n['path']
        name = strip(p.get('def', '')) if p.get('r') == 'def' else base_ty(self.ty(n)).split('<')[0]
        fs = [(f['n'], self.val(self.ev(f['e']))) for f in n['fs']]
        sh = name.split('::')[-1]
        if name.startswith('std::ops::Range'):
            d = dict(fs)
            end = d.get('end', NOTHING)
            return mk('range', d.get('start', I(0)), add(end, I(1)) if name.endswith('Inclusive') else end)
        if n.get('base'):
            base = self.rv(n['base'])
            d = dict(fs)
            a = self._adt(name)
            if a:
                fs = [(f['n'], d.get(f['n'], field(base, f['n']))) for f in a['variants'][0]['fields']]
        if p.get('r') == 'def' and p.get('dk') == 'Variant' or name in ADTS:
            a = self.p.adts.get(name.rsplit('::', 1)[0])
            order = [n_ for n_, _ in fs]
            if a:
                for v in a['variants']:
                    if v['n'] == sh:
                        order = [f['n'] for f in v['fields']]
            d = dict(fs)
            return mk('ctor', name, *[d.get(o, NOTHING) for o in order])
        a = self._adt(name) or self._adt(base_ty(self.ty(n)).split('<')[0])
        if a:
            d = dict(fs)
            fs = [(f['n'], d[f['n']]) for f in a['variants'][0]['fields'] if f['n'] in d]
            name = a['path']
        return mk('struct', name, tuple(fs))

    def construct(self, name, args):
        sh = name.split('::')[-1]
        if sh == 'Some' and name.startswith(('std::', 'core::')):
            return some(self.val(args[0]))
        if sh == 'Ok' and name.startswith(('std::', 'core::')):
            return res(TRUE, self.val(args[0]), NOTHING)
        if sh == 'Err' and name.startswith(('std::', 'core::')):
            return res(FALSE, NOTHING, self.val(args[0]))
        if name == GFP[:-1] and not RAW[0]:
            return gfint(self.val(args[0]))
        if name.startswith('json::JsonValue::') and len(args) == 1:
            return self.val(args[0])
        a = self._adt(name)
        if a and a['dk'] == 'Struct':
            return mk('struct', a['path'], tuple((str(i), self.val(x)) for i, x in enumerate(args)))
        return mk('ctor', name, *[self.val(x) for x in args])

    # ------------------------------------------------------------ places
    def place(self, n):
        """(address, path) of a place expression, or None."""
        k = n['k']
        if k == 'Path' and n.get('r') == 'local':
            a = self.fr.env.get(n['id'])
            if a is None:
                return None
            v = self.store.get(a)
            if v is not None and v.op == 'ref':
                return (v.a[0], tuple(v.a[1]))
            return (a, ())
        if k == 'Field':
            b = self.place(n['e'])
            if b is None:
                return None
            f = ('f', n['n'])
            if is_gf(self.ty(n['e'])):
                f = ('f', n['n'], 'gf')
            return self.follow((b[0], b[1] + (f,)))
        if k == 'Un' and n['op'] == '*':
            b = self.place(n['e'])
            if b is not None:
                return self.follow(b)
            v = self.ev(n['e'])
            if v.op == 'ref':
                return (v.a[0], tuple(v.a[1]))
            if v.op == 'cell':
                return (v.a[0], ())
            return None
        if k == 'Path' and n.get('r') == 'def' and n.get('dk', '').startswith('Static'):
            v = self.static_ref(n)
            return (v.a[0], tuple(v.a[1])) if v.op == 'ref' else None
        if k == 'Index':
            b = self.place(n['e'])
            if b is None:
                return None
            i = self.rv(n['i'])
            bt = base_ty(self.ty(n['e']))
            if i.op == 'range':
                return (b[0], b[1] + (('sl', i.a[0], None if i.a[1] is NOTHING else i.a[1]),))
            if bt.startswith('std::collections::HashMap'):
                return (b[0], b[1] + (('map', i),))
            if i.op == 'tup' or (is_nd(self.ty(n['e'])) and i.op in ('cat',)) or (is_nd(self.ty(n['e'])) and i.op == 'arr'):
                idx = list(i.a) if i.op == 'tup' else [at(i, I(q)) for q in range(length(i).a[0])]
                return (b[0], b[1] + tuple(('i', q) for q in idx))
            if bt.startswith('json::') and i.op == 'str':
                v = self.read(*b)
                if v.op == 'struct' and not any(k == i.a[0] for k, _ in v.a[1]):
                    self.write(b[0], b[1], self.jset(v, i.a[0], mk('ctor', 'json::JsonValue::Null')))
                return (b[0], b[1] + (('f', i.a[0]),))
            self.event('index', n, self.read(*b), i)
            return (b[0], b[1] + (('i', i),))
        if k == 'Block' and not n.get('st') and n.get('e'):
            return self.place(n['e'])
        if k == 'Ref':
            return self.place(n['e'])
        if k in ('MCall', 'Call', 'Await', 'Match', 'If', 'Block'):
            v = self.ev(n)
            if v.op == 'ref':
                return (v.a[0], tuple(v.a[1]))
            return (self.alloc(v), ())
        return None

    def follow(self, pl):
        v = self.read(*pl) if pl[0] in self.store else None
        if v is not None and v.op == 'ref':
            return (v.a[0], tuple(v.a[1]))
        return pl

    # ------------------------------------------------------------ loops
    def iter_of(self, v, n=None):
        """Sequence denoted by an iterable value."""
        v = self.val(v)
        if v.op == 'range':
            lo, hi = v.a
            if hi is NOTHING:
                w = fresh(INF)
                return arr(INF, w, add(lo, w))
            m = sub(hi, lo)
            if m.op == 'int' and m.a[0] < 0:
                m = I(0)
            w = fresh(m)
            return arr(m, w, add(lo, w))
        if v.op == 'opt':
            if v.a[0] is TRUE:
                return one(v.a[1])
            if v.a[0] is FALSE:
                return EMPTY
            return ite(v.a[0], one(v.a[1]), EMPTY)
        if v.op == 'map':
            return mk('mapentries', v)
        return v

    def run_loop(self, n, body, small=4):
        """Summarise `for v in 0..n { body(v) }`.  Returns the sequence of per-iteration results."""
        if n.op == 'int' and n.a[0] <= small:
            out = []
            lf = {'n': None, 'v': None, 'conts': [], 'breaks': [], 'id': None}
            self.loopfr.append(lf)
            live0 = self.live
            for i in range(max(0, n.a[0])):
                self.path.append(('iter', i))
                r = self.one_iter(lf, body, I(i))
                self.path.pop()
                out.append(r)
                if self.live is FALSE:
                    break
            self.loopfr.pop()
            return out, None, None
        s0 = self.snapshot()
        ev0 = len(self.events)
        v = fresh(n)
        lf = {'n': n, 'v': v, 'conts': [], 'breaks': [], 'id': None}
        uk0 = len(self.unknown)
        sq0 = self.seq
        as0 = len(self.asserts)
        rets0 = len(self.fr.rets)

        def attempt():
            lf['conts'] = []
            lf['breaks'] = []
            lf.pop('retc', None)
            self.loopfr.append(lf)
            self.loops.append((v, n))
            try:
                return self.one_iter(lf, body, v)
            finally:
                self.loops.pop()
                self.loopfr.pop()

        def reset(st):
            self.store = dict(st)
            del self.events[ev0:]
            del self.unknown[uk0:]
            del self.asserts[as0:]
            self.seq = sq0
            del self.fr.rets[rets0:]

        live0 = self.live
        na0 = self.na
        r = attempt()
        changed = [a for a in s0 if self.store.get(a) is not s0[a]]
        if not changed:
            self.after_loop(lf, live0)
            return r, v, lf
        # discover the full set of changed cells
        for _ in range(4):
            reset(s0)
            self.live = live0
            carry = {}
            for a in changed:
                carry[a] = self.mkcarry(s0[a], (a, v))
                self.store[a] = carry[a]
            st_in = self.snapshot()
            r = attempt()
            more = [a for a in s0 if a not in carry and self.store.get(a) is not s0[a]]
            if not more:
                break
            changed += more
        fin = {a: self.store[a] for a in changed}
        closed, final = self.solve(changed, s0, carry, fin, v, n, bool(lf['breaks']))
        reset(s0)
        self.live = live0
        for a in changed:
            self.store[a] = closed[a]
        r = attempt()
        for a in changed:
            self.store[a] = final[a]
        self.after_loop(lf, live0)
        return r, v, lf

    def after_loop(self, lf, live0):
        self.live = live0
        for c in lf.get('retc', []):
            if not self.loopfr:
                self.live = band(self.live, bnot(c))

    def one_iter(self, lf, body, i):
        live0 = self.live
        lf['conts'] = []
        r = body(i)
        # join states of `continue`
        if lf['conts']:
            for c, st in reversed(lf['conts']):
                if self.live is FALSE:
                    self.store = {**self.store, **st} if False else st
                    self.live = live0
                else:
                    out = dict(self.store)
                    for a in set(st) | set(out):
                        x, y = st.get(a), out.get(a)
                        if x is None or y is None or x is y:
                            out[a] = y if x is None else x
                        else:
                            out[a] = self.join(c, x, y)
                    self.store = out
        if not (lf.get('rets') and self.live is not live0):
            self.live = live0
        elif self.live is not FALSE or lf['conts'] or lf['breaks']:
            self.live = live0
        else:
            self.live = live0
        return r

    def mkcarry(self, t, key):
        """Symbolic previous-iteration value with the same top-level structure."""
        if t.op == 'struct':
            return mk('struct', t.a[0], tuple((k, self.mkcarry(x, key + (k,))) for k, x in t.a[1]))
        if t.op == 'tup' and t.a:
            return mk('tup', *[self.mkcarry(x, key + (str(i),)) for i, x in enumerate(t.a)])
        if t.op == 'map':
            return mk('map', self.mkcarry(t.a[0], key + ('m',)))
        if t.op == 'opt' and False:
            return t
        if t.op in ('clo', 'fnv', 'ref', 'fut', 'ctorf', 'cell'):
            return t
        c = mk('carry', *key)
        if t in TY:
            TY[c] = TY[t]
        return c

    def solve(self, cells, s0, carry, fin, v, n, broken):
        """Closed forms of loop-carried values.  Works leaf by leaf."""
        leaves = []

        def split(path, init, car, end):
            if car.op == 'struct' and end.op == 'struct' and init.op == 'struct':
                for (k, i), (_, c), (_, e) in zip(init.a[1], car.a[1], end.a[1]):
                    split(path + (k,), i, c, e)
            elif car.op == 'tup' and end.op == 'tup' and init.op == 'tup' and len(car.a) == len(end.a):
                for k, (i, c, e) in enumerate(zip(init.a, car.a, end.a)):
                    split(path + (str(k),), i, c, e)
            elif car.op == 'map' and init.op == 'map' and end.op == 'map':
                split(path + ('m',), init.a[0], car.a[0], end.a[0])
            else:
                leaves.append((path, init, car, end))
        for a in cells:
            split((a,), s0[a], carry[a], fin[a])
        cur = {}     # carry -> closed value at iteration v
        endv = {}
        pend = []
        allc = {c for _, _, c, _ in leaves if c.op == 'carry'}
        for path, init, c, e in leaves:
            if e is c:
                cur[c] = init
                endv[path] = init
            else:
                pend.append((path, init, c, e))
        progress = True
        while pend and progress:
            progress = False
            nxt = []
            for item in pend:
                path, init, c, e = item
                e1 = replace(e, {k: x for k, x in cur.items() if k.op == 'carry'}) if cur else e
                rr = self.closed_form(init, c, e1, v, n, allc, broken)
                if rr is None:
                    nxt.append(item)
                else:
                    cur[c], endv[path] = rr
                    progress = True
            pend = nxt
        if pend and self.peel and not broken and n is not INF and n.op != 'trips':
            # recurrences that depend on nothing else open are set up first
            for item in list(pend):
                path, init, c, e = item
                e1 = replace(e, cur) if cur else e
                if (subterms(e1) & allc) == {c} and init.op in ('int', 'poly', 'param', 'at', 'ite'):
                    def f(m):
                        w = fresh(m)
                        h = 1 + e1.hb
                        b = mk('tup', replace(replace(e1, {c: mk('cv', h, 0)}), {v: w}))
                        return mk('fix', m, b.hb + 1, _subst_raw(b, w, mk('bv', b.hb + 1)), mk('tup', init), I(0), h)
                    cur[c], endv[path] = f(v), f(n)
                    pend.remove(item)
                    progress = True
            while pend and progress:
                progress = False
                nxt = []
                for item in pend:
                    path, init, c, e = item
                    rr = self.closed_form(init, c, replace(e, cur), v, n, allc - set(cur), broken)
                    if rr is None:
                        nxt.append(item)
                    else:
                        cur[c], endv[path] = rr
                        progress = True
                pend = nxt
        if pend and not broken and n is not INF and n.op != 'trips':
            bodies = []
            for path, init, c, e in pend:
                bodies.append(replace(e, cur) if cur else e)
            cs = [c for _, _, c, _ in pend]
            if not any(x in (allc - set(cs)) for b in bodies for x in subterms(b)):
                inits = mk('tup', *[i for _, i, _, _ in pend])
                for k, (path, init, c, e) in enumerate(pend):
                    def f(m):
                        w = fresh(m)
                        h = 1 + max([x.hb for x in bodies] + [0])
                        cm = {}
                        for j, x in enumerate(cs):
                            y = mk('cv', h, j)
                            if x in TY:
                                TY.setdefault(y, TY[x])
                            cm[x] = y
                        b = mk('tup', *[replace(replace(x, cm), {v: w}) for x in bodies])
                        t = mk('fix', m, b.hb + 1, _subst_raw(b, w, mk('bv', b.hb + 1)), inits, I(k), h)
                        if c in TY:
                            TY.setdefault(t, TY[c])
                        return t
                    cur[c], endv[path] = f(v), f(n)
                self.unknown.append(('loop-summarised-as-fixpoint', '?'))
                pend = []
        for path, init, c, e in pend:
            deps = tuple(sorted({x for x in subterms(e) if x.op in ('param', 'rand', 'call', 'field', 'msgp', 'recvd')}, key=lambda x: x.dg))
            u = mk('lv', init, v, *deps)
            if c in TY:
                TY[u] = TY[c]
            cur[c] = u
            w = mk('lv', init, n, *deps)
            if c in TY:
                TY[w] = TY[c]
            endv[path] = w
            self.unknown.append(('loop-carried', '?'))

        def build(path, init, car):
            if car.op == 'struct' and init.op == 'struct' and any(p[:len(path)] == path and len(p) > len(path) for p in endv):
                x = [(k, build(path + (k,), i, c)) for (k, i), (_, c) in zip(init.a[1], car.a[1])]
                return (mk('struct', car.a[0], tuple((k, p) for k, (p, q) in x)),
                        mk('struct', car.a[0], tuple((k, q) for k, (p, q) in x)))
            if car.op == 'tup' and init.op == 'tup' and any(p[:len(path)] == path and len(p) > len(path) for p in endv):
                x = [build(path + (str(k),), i, c) for k, (i, c) in enumerate(zip(init.a, car.a))]
                return mk('tup', *[p for p, q in x]), mk('tup', *[q for p, q in x])
            if car.op == 'map' and path + ('m',) in endv:
                return mk('map', cur[car.a[0]]), mk('map', endv[path + ('m',)])
            return cur.get(car, car), endv.get(path, init)
        closed, final = {}, {}
        for a in cells:
            closed[a], final[a] = build((a,), s0[a], carry[a])
        return closed, final

    def closed_form(self, init, c, e, v, n, allc, broken):
        def free(t):
            return not (subterms(t) & allc)

        def prefix_at(f):
            return f(v), f(n)
        if broken:
            return None
        if free(e) and v not in e.fv:
            # assigned a loop-invariant value
            return ite(eq0(v), init, e), (ite(ge0(sub(n, I(1))), e, init) if n is not INF else e)
        if e.op in ('ite', 'case') and self.cond_free(e, c, allc):
            for kind in ('int', 'gfadd', 'gfmul', 'app'):
                d = self.delta(e, c, kind, init)
                if d is None or not free(d):
                    continue

                def sb(w):
                    return replace(d, {v: w}) if v in d.fv else d
                if kind == 'int':
                    def f(m):
                        w = fresh(m)
                        return add(init, isum(m, w, sb(w)))
                elif kind == 'gfadd':
                    def f(m):
                        w = fresh(m)
                        return gadd(init, gsum(m, w, sb(w)))
                elif kind == 'gfmul':
                    def f(m):
                        w = fresh(m)
                        return gmul(init, gprod(m, w, sb(w)))
                else:
                    def f(m):
                        w = fresh(m)
                        return cat(init, flat(arr(m, w, sb(w))))
                return prefix_at(f)
        # integer accumulation
        if is_intish(e, c, init):
            d = sub(e, c)
            if free(d):
                def f(m):
                    w = fresh(m)
                    return add(init, isum(m, w, replace(d, {v: w}) if v in d.fv else d))
                return prefix_at(f)
        # field accumulation
        if is_gfish(e, c, init):
            d = gadd(e, c)
            if free(d):
                def f(m):
                    w = fresh(m)
                    return gadd(init, gsum(m, w, replace(d, {v: w}) if v in d.fv else d))
                return prefix_at(f)
            q = e
            ms = gfp(e)
            if all(c in m for m in ms) and all(list(m).count(c) == 1 for m in ms):
                k = ungf(frozenset(tuple(x for x in m if x is not c) for m in ms))
                if free(k):
                    def f(m):
                        w = fresh(m)
                        return gmul(init, gprod(m, w, replace(k, {v: w}) if v in k.fv else k))
                    return prefix_at(f)
        # appending
        if e.op == 'cat' and e.a[0] is c:
            x = cat(*e.a[1:])
            if free(x):
                def f(m):
                    w = fresh(m)
                    return cat(init, flat(arr(m, w, replace(x, {v: w}) if v in x.fv else x)))
                return prefix_at(f)
        if e.op == 'cat' and e.a[-1] is c:
            x = cat(*e.a[:-1])
            if free(x) and n is not INF:
                def f(m):
                    w = fresh(m)
                    return cat(flat(arr(m, w, replace(x, {v: sub(sub(m, I(1)), w)}) if v in x.fv else x)), init)
                return prefix_at(f)
        # row-wise appending to a two-dimensional array (push along axis 1)
        if e.op == 'arr':
            w0, b = open_(e)
            row = at(c, w0)
            if b.op == 'cat' and b.a[0] is row and e.a[0] in (length(c), length(init)):
                x = cat(*b.a[1:])
                if free(x):
                    nn = length(init)

                    def f(m):
                        w1 = fresh(nn)
                        w = fresh(m)
                        xx = replace(x, {w0: w1})
                        xx = replace(xx, {v: w}) if v in xx.fv else xx
                        return arr(nn, w1, cat(at(init, w1), flat(arr(m, w, xx))))
                    return prefix_at(f)
        # dropping from the front
        d = sub(length(c), length(e))
        if free(d) and not d.op == 'len':
            if seqslice(c, d, length(c)) is e:
                def f(m):
                    w = fresh(m)
                    k = isum(m, w, replace(d, {v: w}) if v in d.fv else d)
                    return seqslice(init, k, length(init))
                return prefix_at(f)
            if seqslice(c, I(0), length(e)) is e:
                def f(m):
                    w = fresh(m)
                    k = isum(m, w, replace(d, {v: w}) if v in d.fv else d)
                    return seqslice(init, I(0), sub(length(init), k))
                return prefix_at(f)
        # drop from the front by a conditional amount: ite/case of slices
        if e.op in ('ite', 'case'):
            dd = self.cond_drop(e, c)
            if dd is not None and free(dd):
                def f(m):
                    w = fresh(m)
                    k = isum(m, w, replace(dd, {v: w}) if v in dd.fv else dd)
                    return seqslice(init, k, length(init))
                return prefix_at(f)
        if e.op == 'arr' and e.a[0] is INF:
            w0, b = open_(e)
            if b.op == 'at' and b.a[0] is c:
                k = sub(b.a[1], w0)
                if free(k) and w0 not in k.fv:
                    def f(m):
                        w = fresh(m)
                        return seqslice(init, isum(m, w, replace(k, {v: w}) if v in k.fv else k), INF)
                    return prefix_at(f)
        if e.op == 'upd' and e.a[0] is c and v not in e.a[1].fv and free(e.a[1]):
            i = e.a[1]
            c2 = mk('carry', *(c.a + ('@', i)))
            x = replace(e.a[2], {at(c, i): c2})
            if not (subterms(x) & (allc - {c2})):
                rr = self.closed_form(at(init, i), c2, x, v, n, allc | {c2}, broken)
                if rr is not None:
                    return _upd1(init, i, rr[0]), _upd1(init, i, rr[1])
        if e.op == 'colupd' and e.a[0] is c:
            # column-wise rewriting of a matrix
            j, col = e.a[1], e.a[2]
            nn = length(init)
            own = axis1(c, j, nn)
            c2 = mk('carry', *(c.a + ('@col', j)))
            x = replace(col, {own: c2, axis1(c, j, length(c)): c2})
            x = map_at(x, c, j, c2)
            x = replace(x, {mk('len', c): nn})
            if j is v and not (subterms(x) & allc):
                def f(m):
                    w, u = fresh(nn), fresh(dim(init, 1))
                    cc = axis1(init, u, nn)
                    xx = replace(x, {v: u})
                    xx = replace(xx, {replace(c2, {v: u}): cc})
                    new = at(xx, w)
                    old = at(at(init, w), u)
                    return arr(nn, w, arr(dim(init, 1), u, new if m is n else ite(lt(u, m), new, old)))
                return prefix_at(f)
            if v not in j.fv and free(j):
                if not (subterms(x) & (allc - {c2})):
                    rr = self.closed_form(axis1(init, j, nn), c2, x, v, n, allc | {c2}, broken)
                    if rr is not None:
                        return colupd(init, j, rr[0]), colupd(init, j, rr[1])
        # indexed update
        u = self.as_upd(e, c)
        if u is not None:
            g, i, x = u
            if v not in sub(i, v).fv and not free(x):
                # each place is visited once, so it still holds its initial value
                x = replace(x, {at(c, i): at(init, i)})
            if all(free(t) for t in (g, i, x)):
                if i is v and g is TRUE:
                    ln = length(init)

                    def f(m):
                        if m is ln or sub(m, ln) is I(0):
                            w = fresh(m)
                            return arr(m, w, replace(x, {v: w}))
                        if m is v:
                            w = fresh(v)
                            return cat(arr(v, w, replace(x, {v: w})), seqslice(init, v, ln))
                        w = fresh(m)
                        return cat(arr(m, w, replace(x, {v: w})), seqslice(init, m, ln))
                    return prefix_at(f)
                off = sub(i, v)
                if g is TRUE and v not in off.fv and init.op in ('arr', 'cat', 'param', 'carry', 'deser', 'at', 'flat'):
                    # a contiguous range is rewritten
                    def f(m):
                        w = fresh(m)
                        return cat(seqslice(init, I(0), off), arr(m, w, replace(x, {v: w})), seqslice(init, add(off, m), length(init)))
                    return prefix_at(f)

                def f(m):
                    w = fresh(m)
                    t = mk('tup', g, i, x)
                    return binder('scat', m, w, replace(t, {v: w}), init)
                return prefix_at(f)
        if self.peel and e.op == 'upd':
            return self.shifted(init, c, e, v, n, allc)
        return None

    def shifted(self, init, c, e, v, n, allc):
        """A loop that writes x_k at place o_k + v, reading only places no earlier step has written."""
        ws = []
        t = e
        while t.op == 'upd':
            o = sub(t.a[1], v)
            if o.op != 'int':
                return None
            ws.append((o.a[0], t.a[2]))
            t = t.a[0]
        if t is not c or n.op != 'int' or length(init).op != 'int':
            return None
        ws.reverse()
        k = n.a[0]
        for i, (o, _) in enumerate(ws):
            if o < 0 or o + k > length(init).a[0] or any(abs(o - q) < k for q, _ in ws[i + 1:]):
                return None
        out = []
        for o, x in ws:
            for y in sorted((y for y in subterms(x) if y.op == 'at' and y.a[0] is c), key=lambda y: y.dg):
                r = sub(y.a[1], v)
                if r.op != 'int' or any(r.a[0] <= q and q - r.a[0] < k for q, _ in ws):
                    return None
                x = replace(x, {y: at(init, y.a[1])})
            if subterms(x) & allc:
                return None
            out.append((o, x))

        def f(m):
            r = init
            ln = length(init)
            for o, x in out:
                w = fresh(m)
                r = cat(seqslice(r, I(0), I(o)), arr(m, w, replace(x, {v: w})), seqslice(r, add(I(o), m), ln))
            return r
        return f(v), f(n)

    def cond_free(self, e, c, allc):
        if e.op == 'ite':
            return not (subterms(e.a[0]) & allc) and all(self.cond_free(x, c, allc) for x in e.a[1:])
        if e.op == 'case':
            return not (subterms(e.a[0]) & allc) and all(self.cond_free(x, c, allc) for _, x in e.a[1])
        return True

    def delta(self, e, c, kind, init):
        """What one iteration contributes, as a choice over the branches of the update."""
        if e.op == 'ite':
            a, b = self.delta(e.a[1], c, kind, init), self.delta(e.a[2], c, kind, init)
            return None if a is None or b is None else ite(e.a[0], a, b)
        if e.op == 'case':
            d = {w: (x if x is NOTHING else self.delta(x, c, kind, init)) for w, x in e.a[1]}
            return None if any(x is None for x in d.values()) else case(e.a[0], d)
        if kind == 'int':
            if e is c and _intlike(init):
                return I(0)
            return sub(e, c) if e is not c and is_intish(e, c, init) else None
        if kind in ('gfadd', 'gfmul') and not is_gfish(e, c, init):
            return None
        if kind == 'gfadd':
            return gadd(e, c)
        if kind == 'gfmul':
            ms = gfp(e)
            if all(list(m).count(c) == 1 for m in ms):
                return ungf(frozenset(tuple(x for x in m if x is not c) for m in ms))
            return None
        if e is c:
            return EMPTY
        if e.op == 'cat' and e.a[0] is c:
            return cat(*e.a[1:])
        return None

    def cond_drop(self, e, c):
        """Amount dropped from the front of c by e, when every branch is a suffix of c."""
        if e.op == 'ite':
            a, b = self.cond_drop(e.a[1], c), self.cond_drop(e.a[2], c)
            return None if a is None or b is None else ite(e.a[0], a, b)
        if e.op == 'case':
            d = {}
            for w, x in e.a[1]:
                if x is NOTHING:
                    d[w] = NOTHING
                    continue
                k = self.cond_drop(x, c)
                if k is None:
                    return None
                d[w] = k
            return case(e.a[0], d)
        if e is c:
            return I(0)
        d = sub(length(c), length(e))
        if seqslice(c, d, length(c)) is e:
            return d
        return None

    def as_upd(self, e, c):
        if e.op == 'upd' and e.a[0] is c:
            return TRUE, e.a[1], e.a[2]
        if e.op == 'ite':
            if e.a[2] is c:
                u = self.as_upd(e.a[1], c)
                return u and (band(e.a[0], u[0]), u[1], u[2])
            if e.a[1] is c:
                u = self.as_upd(e.a[2], c)
                return u and (band(bnot(e.a[0]), u[0]), u[1], u[2])
            u, w = self.as_upd(e.a[1], c), self.as_upd(e.a[2], c)
            if u and w and u[0] is TRUE and w[0] is TRUE:
                return TRUE, ite(e.a[0], u[1], w[1]), ite(e.a[0], u[2], w[2])
        if e.op == 'case':
            us = {}
            for w, x in e.a[1]:
                if x is NOTHING:
                    continue
                u = self.as_upd(x, c)
                if not u or u[0] is not TRUE:
                    return None
                us[w] = u
            return TRUE, case(e.a[0], {w: u[1] for w, u in us.items()}), case(e.a[0], {w: u[2] for w, u in us.items()})
        return None

    def for_seq(self, seq, bodyfn, small=4):
        """Run bodyfn(element) over a sequence; returns the sequence of results (or None)."""
        if seq.op == 'cat' and any(s.op == 'arr' for s in seq.a) and len(seq.a) <= 12:
            outs = []
            for k, s in enumerate(seq.a):
                if self.reactive:
                    self.path.append(('segment', k))
                outs.append(self.for_seq(s, bodyfn, small))
                if self.reactive:
                    self.path.pop()
            if any(o is None for o in outs):
                return None
            return cat(*outs)
        if seq.op == 'flat' and seq.a[0].op == 'arr':
            w, b = open_(seq.a[0])
            if length(b) is not I(1):
                r = self.for_seq(seq.a[0], lambda x: self.for_seq(x, bodyfn, small), small)
                return flat(r) if r is not None else None
        if seq.op == 'ite':
            return self.branch(seq.a[0], lambda: self.for_seq(seq.a[1], bodyfn, small), lambda: self.for_seq(seq.a[2], bodyfn, small))
        if seq.op == 'case':
            alts = [(w, x) for w, x in seq.a[1] if x is not NOTHING]

            def go(k):
                if k == len(alts) - 1:
                    return self.for_seq(alts[k][1], bodyfn, small)
                return self.branch(isv(seq.a[0], alts[k][0]), lambda: self.for_seq(alts[k][1], bodyfn, small), lambda: go(k + 1))
            return go(0)
        n = length(seq)
        if n.op == 'int' and n.a[0] <= small:
            r, _, _ = self.run_loop(n, lambda i: bodyfn(at(seq, i)), small)
            return lst(*[self.val(x) if x.op == 'ref' else x for x in r])
        r, v, lf = self.run_loop(n, lambda i: bodyfn(at(seq, i)))
        if r is None or r is NOTHING:
            return EMPTY
        if r.op == 'ref':
            r = self.val(r)
        return arr(n, v, r)

    def e_For(self, n):
        it = self.ev(n['it'])
        t = self.ty(n['it'])
        if it.op == 'ref' and self.is_seq_ty(t) and t.startswith('&') and 'mut ' in t[:8]:
            seq = self.refs(it, max(1, rank(t)))
        elif it.op == 'ref' and not self.is_seq_ty(t):
            v = self.val(it)
            if v.op == 'struct':
                return self.for_iterator(n, it)
            seq = self.take_iter(it)
        elif is_nd(t):
            v = self.val(it)
            for _ in range(rank(t) - 1):
                v = flat(v)
            seq = v
        else:
            v = self.val(it)
            if v.op == 'struct':
                return self.for_iterator(n, mk('ref', self.alloc(v), ()))
            self.hash_walk(t, n)
            seq = self.walk(v, t) if v.op == 'map' else self.iter_of(it, n)
        if seq.op in ('lazy', 'lazycat'):
            return self.unk('for-lazy', n)

        def body(elem):
            self.match(n['p'], elem)
            self.ev(n['b'])
            return UNIT
        self.for_seq(seq, body)
        return UNIT

    def for_iterator(self, n, it):
        return self.unk('for-iterator', n)

    def is_seq_ty(self, ty):
        b = base_ty(ty)
        return b.startswith(('std::vec::Vec<', '[', 'std::collections::VecDeque', 'ndarray::ArrayBase'))

    def e_Continue(self, n):
        if self.loopfr:
            lf = self.loopfr[-1]
            lf['conts'].append((band(self.pc_local(), self.live), self.snapshot()))
        self.live = FALSE
        return NOTHING

    def e_Break(self, n):
        if n.get('e'):
            v = self.ev(n['e'])
        else:
            v = UNIT
        if self.loopfr:
            lf = self.loopfr[-1]
            lf['breaks'].append((band(self.pc_local(), self.live), self.snapshot(), v))
        self.live = FALSE
        return NOTHING

    def e_While(self, n):
        c = n['c']
        # while let Some(x) = <source>
        if c['k'] == 'LetE':
            r = self.while_let(n, c)
            if r is not None:
                return r
        # counted loop: while i < n { ...; i += 1 }
        r = self.counted_while(n)
        if r is not None:
            return r

        def body(i):
            cc = self.rv(c)
            self.event('while', n, cc)
            return self.branch(cc, lambda: self.ev(n['b']), lambda: UNIT)

        def wbody():
            cc = self.rv(c)
            self.branch(cc, lambda: self.ev(n['b']), lambda: self.e_Break({}))
        try:
            self.run_while(n, wbody)
        except NoWhile:
            self.run_loop(mk('trips', self.loc(n)), body)
        return UNIT

    def run_while(self, n, body):
        """Summarise a loop that ends by `break`: the state before each iteration is a function of the
        iteration number, and the loop ends at the first iteration that breaks."""
        s0 = self.snapshot()
        marks = (len(self.events), len(self.unknown), len(self.asserts), len(self.fr.rets))
        sq0, live0, pc0, pcl0 = self.seq, self.live, self.pc, self.pc_local()
        nl, nt = len(self.loopfr), len(self.loops)
        v = fresh(INF)
        lf = {'n': INF, 'v': v, 'conts': [], 'breaks': [], 'id': None, 'w': True}

        def reset():
            self.store = dict(s0)
            del self.events[marks[0]:]
            del self.unknown[marks[1]:]
            del self.asserts[marks[2]:]
            del self.fr.rets[marks[3]:]
            self.seq = sq0
            self.live, self.pc, self.pcl = live0, pc0, pcl0

        def attempt(trips):
            lf['conts'], lf['breaks'] = [], []
            self.loopfr.append(lf)
            self.loops.append((v, trips))
            self.pc = band(pc0, live0)
            self.live = self.pcl = TRUE
            try:
                body()
                alive = self.live is not FALSE
                for c, st in reversed(lf['conts']):
                    if not alive:
                        self.store, alive = st, True
                        continue
                    out = dict(self.store)
                    for a in set(st) | set(out):
                        x, y = st.get(a), out.get(a)
                        out[a] = y if x is None else x if y is None or x is y else self.join(c, x, y)
                    self.store = out
            finally:
                self.loops.pop()
                self.loopfr.pop()
                self.live, self.pc, self.pcl = live0, pc0, pcl0
        try:
            attempt(INF)
            changed = []
            for _ in range(6):
                more = {a for a in s0 if self.store.get(a) is not (carry[a] if a in changed else s0[a])}
                for b in lf['breaks']:
                    more |= {a for a in s0 if b[1].get(a) is not (carry[a] if a in changed else s0[a])}
                more -= set(changed)
                if changed and not more:
                    break
                changed += sorted(more)
                carry = {a: self.wcarry(s0[a], (a, v)) for a in changed}
                if not changed:
                    break
                reset()
                self.store.update(carry)
                attempt(INF)
        except NoWhile:
            del self.loopfr[nl:]
            del self.loops[nt:]
            reset()
            raise
        # lengths that no iteration changes
        fixed = []
        for a in changed:
            if carry[a].op == 'carry' and s0[a].op in ('arr', 'cat', 'upd') and length(s0[a]).op == 'int':
                fixed.append(a)
        if fixed:
            for a in fixed:
                carry[a] = mk('carry', a, v, 'sized')
                ARRLEN[carry[a]] = length(s0[a])
            reset()
            self.store.update(carry)
            attempt(INF)
            keep = [a for a in fixed if all(length(x.get(a, s0[a])) is length(s0[a])
                                            for x in [self.store] + [b[1] for b in lf['breaks']])]
            if len(keep) < len(fixed):
                for a in fixed:
                    ARRLEN.pop(carry[a], None)
                    carry[a] = self.wcarry(s0[a], (a, v))
                reset()
                self.store.update(carry)
                attempt(INF)
        leaves = []

        def split(path, init, car):
            if car.op == 'struct' and init.op == 'struct':
                for (k, i), (_, c) in zip(init.a[1], car.a[1]):
                    split(path + (k,), i, c)
            elif car.op == 'tup' and init.op == 'tup':
                for k, (i, c) in enumerate(zip(init.a, car.a)):
                    split(path + (str(k),), i, c)
            else:
                leaves.append((path, init, car))

        def leaf(st, path):
            x = st.get(path[0], s0[path[0]])
            for p in path[1:]:
                x = field(x, p)
            return x
        for a in changed:
            split((a,), s0[a], carry[a])
        leaves = [x for x in leaves if x[2].op == 'carry']
        m = len(leaves)
        inits = mk('tup', *[i for _, i, _ in leaves])
        rows = [mk('tup', *[leaf(self.store, p) for p, _, _ in leaves])]
        for b in lf['breaks']:
            rows.append(mk('tup', b[0], self.val(b[2]) if b[2].op == 'ref' else b[2], *[leaf(b[1], p) for p, _, _ in leaves]))
        b = mk('tup', *rows)
        h = 1 + b.hb
        cm = {c: mk('cv', h, j) for j, (_, _, c) in enumerate(leaves)}
        for c, y in cm.items():
            if c in TY:
                TY.setdefault(y, TY[c])
            if c in ARRLEN:
                ARRLEN.setdefault(y, ARRLEN[c])
        b = replace(b, cm) if cm else b
        hb = b.hb + 1
        b = _subst_raw(b, v, mk('bv', hb))

        def w(op, i, k, like=None):
            t = mk(op, i, hb, b, inits, I(k), h)
            if like in TY:
                TY.setdefault(t, TY[like])
            if like in ARRLEN:
                ARRLEN.setdefault(t, ARRLEN[like])
            return t
        trips = w('wfin', INF, m)
        self.loopinfo[v] = {'carry': [c for _, _, c in leaves], 'inits': [i for _, i, _ in leaves],
                            'paths': [p for p, _, _ in leaves], 'post': dict(self.store), 'breaks': list(lf['breaks']),
                            'loc': self.loc(n), 'task': self.task, 'state': {c: w('wst', v, j, c) for j, (_, _, c) in enumerate(leaves)}}
        if m or lf['breaks']:
            reset()
            now = {c: w('wst', v, j, c) for j, (_, _, c) in enumerate(leaves)}
            for a in changed:
                self.store[a] = replace(carry[a], now)
            attempt(trips)
        brk = list(lf['breaks'])
        ends = {c: w('wfin', INF, j, c) for j, (_, _, c) in enumerate(leaves)}
        new = {a: x for a, x in self.store.items() if a not in s0}
        self.store = dict(s0)
        self.store.update(new)
        for a in changed:
            self.store[a] = replace(carry[a], ends)
        if not brk:
            self.live = FALSE
            return NOTHING
        def same(xs):
            vals = {self.val(x[2]) if x[2].op == 'ref' else x[2] for x in xs}
            if len(vals) == 1:
                y = list(vals)[0]
                if v not in y.fv and not any(z.op == 'wst' for z in subterms(y)):
                    return y
        rv = same([x for x in brk if len(x) > 3 and x[3]])
        for k, x in enumerate(brk):
            if len(x) > 3 and x[3]:
                ex = eq0(sub(w('wfin', INF, m + 1), I(k)))
                val = rv if rv is not None else x[2] if x[2] is UNIT else w('wfin', INF, m + 2)
                if all(len(y) > 3 for y in brk):
                    ex = TRUE
                self.do_ret(val, ex)
                if ex is TRUE:
                    return NOTHING
        y = same([x for x in brk if len(x) == 3])
        if y is not None:
            return y
        t = w('wfin', INF, m + 2)
        return t

    def wcarry(self, t, key):
        if t.op == 'struct':
            return mk('struct', t.a[0], tuple((k, self.wcarry(x, key + (k,))) for k, x in t.a[1]))
        if t.op == 'tup' and t.a:
            return mk('tup', *[self.wcarry(x, key + (str(i),)) for i, x in enumerate(t.a)])
        if t.op in ('clo', 'fnv', 'ref', 'fut', 'ctorf', 'cell'):
            return t
        c = mk('carry', *key)
        if t in TY:
            TY[c] = TY[t]
        return c

    def counted_while(self, n):
        s0 = self.snapshot()
        ev0, uk0, sq0, as0 = len(self.events), len(self.unknown), self.seq, len(self.asserts)
        live0 = self.live

        def reset():
            self.store = dict(s0)
            del self.events[ev0:]
            del self.unknown[uk0:]
            del self.asserts[as0:]
            self.seq = sq0
            self.live = live0
        # find an integer cell in the condition that advances by one
        v = fresh(INF)
        lf = {'n': INF, 'v': v, 'conts': [], 'breaks': [], 'id': None}
        rets0 = len(self.fr.rets)
        ok = None
        carry = {a: self.mkcarry(s0[a], (a, v)) for a in s0 if s0[a].op in ('int', 'poly', 'param', 'len', 'carry', 'tv') or True}
        reset()
        # first find which cells change
        self.loopfr.append(lf)
        self.loops.append((v, INF))
        try:
            cc = self.rv(n['c'])
            self.one_iter(lf, lambda i: self.ev(n['b']), v)
        except Unsupported:
            pass
        self.loops.pop()
        self.loopfr.pop()
        changed = [a for a in s0 if self.store.get(a) is not s0[a]]
        broken = bool(lf['breaks']) or len(self.fr.rets) > rets0
        del self.fr.rets[rets0:]
        reset()
        if broken or not changed:
            return None
        for a in changed:
            self.store[a] = self.mkcarry(s0[a], (a, v))
        self.loopfr.append(lf)
        self.loops.append((v, INF))
        cc = self.rv(n['c'])
        self.one_iter(lf, lambda i: self.ev(n['b']), v)
        self.loops.pop()
        self.loopfr.pop()
        trips = None
        for a in changed:
            c0 = mk('carry', a, v)
            e = self.store[a]
            if not (e.op in ('poly', 'carry') and c0 in subterms(e)):
                continue
            d = sub(e, c0)
            if d.op != 'int' or d.a[0] not in (1, -1):
                continue
            step = d.a[0]
            # cc must be ge0(bound - c0 - 1) / not eq0(bound - c0)
            p = None
            if cc.op == 'ge0':
                pp = poly(cc.a[0])
                k = pp.get((c0,), 0)
                rest = unpoly({m: x for m, x in pp.items() if m != (c0,)})
                others = {x for x in subterms(rest) if x.op == 'carry'}
                if k == -step and not others:
                    trips = sub(add(rest, I(1)), s0[a]) if step == 1 else sub(add(s0[a], I(1)), neg(rest)) if False else None
                    if step == 1:
                        trips = sub(add(rest, I(1)), s0[a])
                    else:
                        trips = add(add(rest, I(1)), s0[a])
            if cc.op == 'not' and cc.a[0].op == 'eq0':
                pp = poly(cc.a[0].a[0])
                k = pp.get((c0,), 0)
                if k in (1, -1):
                    rest = unpoly({m: x for m, x in pp.items() if m != (c0,)})
                    bound = rest if k == -1 else neg(rest)
                    if not {x for x in subterms(bound) if x.op == 'carry'}:
                        trips = mul(I(step), sub(bound, s0[a]))
            if trips is not None:
                break
        reset()
        if trips is None:
            return None
        self.run_loop(trips, lambda i: self.ev(n['b']))
        return UNIT

    def while_let(self, n, c):
        e = c['e']
        p = c['p']
        if not (p['k'] == 'TStruct' and strip(p['path'].get('def', '')).endswith('::Some')):
            return None
        inner = p['ps'][0]
        aw = e['k'] == 'Await'
        src = e['e'] if aw else e
        if src['k'] != 'MCall':
            return None
        m = src['m']
        if aw and m == 'recv' and not self.reactive:
            rx = self.rv(src['s'])
            k = fresh(INF)

            def body(i):
                mssg = mk('chanmsg', rx, i)
                ety = self.chan_ty(self.ty(src['s']))
                x = self.expand(mssg, ety)
                self.event('chanrecv', n, rx)
                self.match(inner, x)
                return self.ev(n['b'])
            self.run_loop(INF, body)
            return UNIT
        if aw and m == 'join_next' and 'JoinSet<' in self.ty(src['s']):
            # tasks finish in any order
            pl = self.place(src['s'])
            if pl is None:
                return None
            seq = self.val(self.read(*pl))
            self.write(pl[0], pl[1], EMPTY)

            def body(elem):
                self.match(inner, self.await_(elem, src))
                return self.ev(n['b'])
            self.for_seq(mk('perm', seq, self.loc(n)), body)
            return UNIT
        if not aw and m in ('next', 'pop_front') and not src['a']:
            pl = self.place(src['s'])
            if pl is None:
                return None
            seq = self.val(self.read(*pl))
            if seq.op in ('struct',):
                return None
            seq = self.iter_of(seq)
            self.write(pl[0], pl[1], EMPTY)

            def body(elem):
                self.match(inner, elem)
                return self.ev(n['b'])
            self.for_seq(seq, body)
            return UNIT
        if not aw and m in ('pop',) and not src['a'] and base_ty(self.ty(src['s'])).startswith('std::vec::Vec'):
            pl = self.place(src['s'])
            seq = self.val(self.read(*pl))
            self.write(pl[0], pl[1], EMPTY)
            L = length(seq)
            w = fresh(L)
            seq = arr(L, w, at(seq, sub(sub(L, I(1)), w)))

            def body(elem):
                self.match(inner, elem)
                return self.ev(n['b'])
            self.for_seq(seq, body)
            return UNIT
        return None

    def chan_ty(self, ty):
        b = base_ty(ty)
        i = b.find('<')
        return b[i + 1:-1] if i >= 0 else ''

    def expand(self, t, ty):
        """Structure an opaque value according to its type."""
        b = base_ty(ty)
        if b.startswith('(') and b.endswith(')') and b != '()':
            return mk('tup', *[self.expand(field(t, str(i)), x) for i, x in enumerate(split_top(b[1:-1]))])
        a = self._adt(b.split('<')[0])
        if a and a['dk'] == 'Struct' and not is_gf(ty):
            return mk('struct', a['path'], tuple((f['n'], self.expand(field(t, f['n']), a['_tys'][f['t']])) for f in a['variants'][0]['fields']))
        TY.setdefault(t, b)
        return t

    def e_Loop(self, n):
        try:
            return self.run_while(n, lambda: self.ev(n['b']))
        except NoWhile:
            pass

        def body(i):
            return self.ev(n['b'])
        sv = self.snapshot()
        lfres = []
        nn = mk('trips', self.loc(n))
        r, v, lf = self.run_loop(nn, body)
        brs = lf['breaks'] if lf else []
        if brs:
            c, st, val = brs[-1]
            return self.val(val) if val.op == 'ref' else val
        return NOTHING

    def join_all(self, n):
        """tokio::join! and tokio::try_join!: every one of the futures is run."""
        for s in n.get('st', []):
            e = s.get('e') or {}
            if s['k'] == 'SLet' and s['p'].get('n') == 'futures' and e.get('k') == 'Tup' and all(
                    x['k'] == 'Call' and str(x['f'].get('def', '')).endswith('::maybe_done') for x in e['a']):
                rs = [self.await_(v, n) for v in [self.rv(x['a'][0]) for x in e['a']]]
                if 'tokio::join' in (s.get('mac') or []):
                    return mk('tup', *rs)
                err = err_val(rs[-1])
                for r in reversed(rs[:-1]):
                    err = ite(is_ok(r), err, err_val(r))
                return res(band(*[is_ok(r) for r in rs]), mk('tup', *[ok_val(r) for r in rs]), err)
        return None

    def select(self, n):
        """tokio::select!: one of the ready branches runs."""
        futs = None
        outm = None

        def find_let(x):
            nonlocal futs
            if isinstance(x, dict):
                if x.get('k') == 'SLet' and x.get('e', {}) and x['p'].get('n') == 'futures' and x['e']['k'] == 'Tup':
                    futs = x['e']['a']
                    return True
                for y in x.values():
                    if find_let(y):
                        return True
            elif isinstance(x, list):
                for y in x:
                    if find_let(y):
                        return True
            return False
        find_let(n['st'])
        last = n.get('e') or n['st'][-1]
        if last['k'] != 'Match' or futs is None:
            return self.unk('select', n)
        sel = mk('selected', self.loc(n), *[v for v, _ in self.loops[-1:]])
        arms = last['arms']
        vals = []
        for f in futs:
            vals.append(self.rv(f))

        def go(i):
            if i >= len(arms):
                return NOTHING
            a = arms[i]
            p = a['p']
            name = strip(p.get('path', p).get('def', ''))
            c = mk('chosen', sel, i)
            k = name.split('::')[-1]
            idx = int(k[1:]) if re.match(r'_\d+$', k) else None

            def run():
                if idx is not None:
                    v = vals[idx]
                    x = self.await_(v, n)
                    if p.get('ps'):
                        cc = self.match(p['ps'][0], x)
                        self.event('select', n, I(idx), v, cc)
                    self.event('arm', a['b'], I(idx), v)
                return self.ev(a['b'])
            if k == '_' or (idx is None and i == len(arms) - 1 and k != 'Disabled'):
                if self.is_panic(a['b']):
                    return NOTHING
            if i == len(arms) - 1:
                return run()
            return self.branch(c, run, lambda: go(i + 1))
        # drop the trailing unreachable arm
        while arms and self.is_panic(arms[-1]['b']):
            arms = arms[:-1]
        return go(0)

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        f = n['f']
        if f['k'] == 'Path' and f.get('r') == 'def' and f['dk'] in ('Fn', 'AssocFn'):
            args = [self.ev(a) for a in n['a']]
            if self.live is FALSE:
                return NOTHING
            return self.call_path(f['def'], f.get('res') or '', self.gargs(f), args, n, n['a'], tuple(f.get('ga', ())))
        if f['k'] == 'Path' and f.get('r') == 'def' and f['dk'].startswith('Ctor'):
            args = [self.ev(a) for a in n['a']]
            return self.construct(strip(f['def']), args)
        if f['k'] == 'Path' and f.get('r') == 'selfctor':
            args = [self.ev(a) for a in n['a']]
            return self.construct(base_ty(self.ty(n)).split('<')[0], args)
        fv = self.ev(f)
        args = [self.ev(a) for a in n['a']]
        return self.call_val(fv, args, n)

    def call_path(self, d, resid, consts, args, n, nodes, ga=()):
        self.path.append((n.get('ln'), n.get('col')))
        try:
            return self.call_path_(d, resid, consts, args, n, nodes, ga)
        finally:
            self.path.pop()

    def call_path_(self, d, resid, consts, args, n, nodes, ga):
        name = strip(d)
        p = self.prims.get(name)
        if p is None and resid:
            b = self.p.bodies.get(resid)
            if b is not None:
                p = self.prims.get(strip(b['path']))
        if p is not None:
            r = p(self, args, n)
            if r is not None:
                return r
        b = self.p.bodies.get(resid) if resid else None
        if b is None:
            b = self.p.bypath.get(name)
        if b is not None and 'body' in b and not self.gf_prim(b):
            if name in self.opaque or strip(b['path']) in self.opaque:
                return mk('call', strip(b['path']), *[self.val(a) for a in args])
            return self.call_body(b, args, consts, self.loc(n))
        if b is not None and b.get('name') == 'from' and (b.get('trait') or '').startswith('std::convert::From<'):
            return gfint(self.val(args[0])) if is_gf(b['_tys'][b['self_ty']]) else gfval(self.val(args[0]))
        return self.lib(name, args, n, nodes, b, ga)

    def gf_prim(self, b):
        """Field operations are algebraic primitives unless their own bodies are being examined."""
        if self.inline_gf or RAW[0]:
            return False
        t = b.get('trait') or ''
        st = b['_tys'][b['self_ty']] if 'self_ty' in b else ''
        if b.get('expn') and 'derive' in b['expn']:
            return not t.startswith('serde::')
        if is_gf(st) or (t.startswith('std::convert::From<') and GFP in t and st == 'u32'):
            if t:
                return True
            return b.get('name') in ('rand', 'init')
        return False

    def e_MCall(self, n):
        d = n.get('def', '')
        resid = n.get('res') or ''
        name = strip(d)
        s = n['s']
        adj = s.get('adj', '')
        # receiver
        if 'refmut' in adj or name.startswith(INTERIOR):
            pl = self.place(s)
            if pl is not None:
                rcv = mk('ref', pl[0], pl[1])
            else:
                rcv = mk('ref', self.alloc(self.rv(s)), ())
        else:
            rcv = self.ev(s)
        args = [rcv] + [self.ev(a) for a in n['a']]
        if self.live is FALSE:
            return NOTHING
        return self.call_path(d, resid, self.gargs(n), args, n, [s] + n['a'], tuple(n.get('ga', ())))

    # library models live in lib.py
    def lib(self, name, args, n, nodes, b, ga):
        raise NotImplementedError


def _intlike(t):
    return t.op not in ('struct', 'tup', 'arr', 'cat', 'opt', 'res', 'map', 'gf', 'clo', 'ref')


def is_intish(e, c, init):
    if e.op == 'poly':
        return True
    if init.op in ('int', 'poly') and e.op not in ('arr', 'cat', 'gf', 'struct'):
        return True
    return False


def is_gfish(e, c, init):
    if e.op == 'gf' or init.op == 'gf':
        return True
    return False


def gsum(n, v, body):
    """sum over v<n in the field: linear in the body, invariant factors pulled out."""
    if n.op == 'int' and 0 <= n.a[0] <= 8:
        r = GZERO
        for k in range(n.a[0]):
            r = gadd(r, replace(body, {v: I(k)}))
        return r
    if body.op == 'ite' and v not in body.a[0].fv:
        return ite(body.a[0], gsum(n, v, body.a[1]), gsum(n, v, body.a[2]))
    if body.op == 'ite' and body.a[0].op == 'eq0' and body.a[2] is GZERO:
        # selection of one summand
        p = body.a[0].a[0]
        d = poly(p)
        if d.get((v,)) in (1, -1):
            k = d[(v,)]
            idx = mul(I(-k), sub(p, unpoly({(v,): k})))
            if v not in idx.fv and nonneg(idx) and nonneg(sub(sub(n, idx), I(1))):
                return replace(body.a[1], {v: idx})
    if v in body.fv:
        for y in subterms(body):
            if y.op == 'at' and y.a[1] is v and y.a[0].op == 'cat' and v not in y.a[0].fv and sub(length(y.a[0]), n) is I(0):
                # indexing a concatenation: one sum per segment
                r, off = GZERO, I(0)
                for seg in y.a[0].a:
                    m = length(seg)
                    w = fresh(m)
                    r = gadd(r, gsum(m, w, replace(body, {v: add(off, w)})))
                    off = add(off, m)
                return r
    if body.op in ('ite', 'case'):
        return binder('gfsum', n, v, body)
    r = GZERO
    for m in gfp(body):
        ind = [x for x in m if v not in x.fv]
        dep = [x for x in m if v in x.fv]
        f = GONE
        for x in ind:
            f = gmul(f, x)
        g = GONE
        for x in dep:
            g = gmul(g, x)
        r = gadd(r, gmul(f, binder('gfsum', n, v, g)))
    return r


def gprod(n, v, body):
    if n.op == 'int' and 0 <= n.a[0] <= 8:
        r = GONE
        for k in range(n.a[0]):
            r = gmul(r, replace(body, {v: I(k)}))
        return r
    if v not in body.fv and n.op == 'poly':
        k = poly(n).get((), 0)
        if 0 < k <= 4 and nonneg(sub(n, I(k))):
            r = gprod(sub(n, I(k)), v, body)
            for _ in range(k):
                r = gmul(r, body)
            return r
    if body is GONE:
        return GONE
    if body.op == 'ginv':
        return ginv(gprod(n, v, body.a[0]))
    ms = gfp(body)
    if len(ms) == 1 and body.op == 'gf':
        m, = ms
        r = GONE
        for x in m:
            r = gmul(r, gprod(n, v, x))
        return r
    return binder('gfprod', n, v, body)


GBIND['gfsum'] = gsum
GBIND['gfprod'] = gprod


def axis1(m, j, nn):
    w = fresh(nn)
    return arr(nn, w, at(at(m, w), j))


def map_at(x, c, j, c2):
    """Rewrite c[i][j] into c2[i]."""
    def f(t):
        if t.op == 'at' and t.a[1] is j and t.a[0].op == 'at' and t.a[0].a[0] is c:
            return at(c2, map_at(t.a[0].a[1], c, j, c2))
        return None
    return transform(x, f)


def _upd1(v, i, x):
    return updat(v, i, x)


def updat(v, i, x):
    n = length(v)
    if n.op == 'int' and i.op == 'int' and n.a[0] <= 16 and 0 <= i.a[0] < n.a[0]:
        return lst(*[x if k == i.a[0] else at(v, I(k)) for k in range(n.a[0])])
    if v.op == 'upd' and v.a[1] is i:
        return mk('upd', v.a[0], i, x)
    if at(v, i) is x:
        return v
    return mk('upd', v, i, x)


def split_top(s):
    out = []
    d = 0
    cur = ''
    for i, ch in enumerate(s):
        if ch in '<([{':
            d += 1
        elif ch in ')]}' or (ch == '>' and s[i - 1] != '-'):
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
