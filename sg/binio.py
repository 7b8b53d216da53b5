"""Models of what the programs use: reports, text output, clocks and thread pools.

A JSON object is a structure with sorted fields, a JSON array a sequence."""
from lib import *
from netio import strcat
import terms


class BinIO:
    def jset(self, o, k, v):
        k = k.a[0] if not isinstance(k, str) and k.op == 'str' else k
        if o.op != 'struct' or not isinstance(k, str):
            return mk('jset', o, k if not isinstance(k, str) else S(k), v)
        d = dict(o.a[1])
        d[k] = v
        return mk('struct', 'json', tuple(sorted(d.items())))

    def f_json__JsonValue__new_object(self, args, n, nodes):
        return mk('struct', 'json', ())

    f_json__object__Object__new = f_json__JsonValue__new_object
    f_json__object__Object__with_capacity = f_json__JsonValue__new_object

    def f_json__JsonValue__new_array(self, args, n, nodes):
        return EMPTY

    def f_json__JsonValue__dump(self, args, n, nodes):
        return mk('jdump', self.val(args[0]))

    f_json__stringify = f_json__JsonValue__dump
    f_json__JsonValue__pretty = f_json__JsonValue__dump
    f_json__stringify_pretty = f_json__JsonValue__dump

    def f_json__parse(self, args, n, nodes):
        x = self.val(args[0])
        return res(mk('jparses', x), mk('jparse', x), mk('jerr', x))

    def f_std__string__String__from_utf8(self, args, n, nodes):
        x = self.val(args[0])
        return res(mk('isutf8', x), x, mk('utf8err', x))

    def f_std__fs__write(self, args, n, nodes):
        self.event('filewrite', n, self.val(args[0]), self.val(args[1]))
        return res(mk('written', self.val(args[0])), UNIT, mk('ioerr', I(1)))

    # text
    def f_core__fmt__rt__Argument__new_display(self, args, n, nodes):
        x = self.val(args[0])
        t = base_ty(self.ty(nodes[0]))
        return x if t in ('std::string::String', 'str') or x.op in ('str', 'strcat') else mk('show', x)

    def f_core__fmt__rt__Argument__new_debug(self, args, n, nodes):
        return mk('showdbg', self.val(args[0]))

    def f_std__fmt__Arguments__from_str(self, args, n, nodes):
        return self.val(args[0])

    f_std__fmt__Arguments__from_str_nonconst = f_std__fmt__Arguments__from_str

    def f_std__fmt__Arguments__new(self, args, n, nodes):
        b, a = self.val(args[0]), self.val(args[1])
        try:
            b = [at(b, I(k)).a[0] for k in range(length(b).a[0])]
        except (IndexError, AttributeError):
            return None
        out, i, arg = [], 0, 0
        while i < len(b) and b[i]:
            c = b[i]
            i += 1
            if c <= 0x80:
                m = c
                if c == 0x80:
                    m = b[i] + 256 * b[i + 1]
                    i += 2
                out.append(S(bytes(b[i:i + m]).decode(errors='replace')))
                i += m
                continue
            opts = []
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if c & bit:
                    opts.append(I(sum(x << 8 * k for k, x in enumerate(b[i:i + w]))))
                    i += w
            if c & 8:
                arg = b[i] + 256 * b[i + 1]
                i += 2
            x = at(a, I(arg))
            arg += 1
            out.append(mk('padded', x, *opts) if opts else x)
        return strcat(*out)

    def f_std__fmt__format(self, args, n, nodes):
        return self.val(args[0])

    f_alloc__fmt__format = f_std__fmt__format

    def f_std__hint__must_use(self, args, n, nodes):
        return self.val(args[0])

    f_core__hint__must_use = f_std__hint__must_use

    def m__print(self, args, n, nodes):
        self.event('print', n, self.val(args[0]))
        return UNIT

    def m__eprint(self, args, n, nodes):
        return UNIT

    # clocks
    def f_std__time__Instant__elapsed(self, args, n, nodes):
        return mk('duration', sub(mk('clockat', self.pathkey(), *self.lvars()), mk('clockof', self.val(args[0]))))

    # thread pools
    def f_rayon__ThreadPoolBuilder__new(self, args, n, nodes):
        return mk('struct', 'pool', (('threads', NONE),))

    def f_rayon__ThreadPoolBuilder__num_threads(self, args, n, nodes):
        p = self.val(args[0])
        if p.op == 'struct':
            return setfield(p, 'threads', some(self.val(args[1])))

    def f_rayon__ThreadPoolBuilder__build_global(self, args, n, nodes):
        p = self.val(args[0])
        if p.op == 'struct':
            self.event('pool', n, field(p, 'threads'))
            return res(atom('poolok', 'bool'), UNIT, NOTHING)

    def f_argh__from_env(self, args, n, nodes):
        t = self.ty(n)
        return atom('opts', t)

    def m_reserve(self, args, n, nodes):
        if base_ty(self.rty(nodes)).split('<')[0] in ('std::vec::Vec', 'std::string::String', 'std::collections::VecDeque', 'std::collections::HashMap'):
            return UNIT


for k, f in vars(BinIO).items():
    if not k.startswith('__'):
        setattr(Lib, k, f)
