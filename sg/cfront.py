"""C front end: the bodies of the C field routines, read through clang's syntax tree, as nodes of the dataflow engine."""
import json
import os
import subprocess
from interp import *
from lib import Lib
import eval as ev

CLANG = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w']
TYS = ['i32', 'bool', 'cptr', '()']
INT, BOOL, PTR, VOID = range(4)
NULLP = mk('struct', 'cptr', (('a', mk('ref', 0, ())), ('o', I(0))))
CMP = {'<', '<=', '>', '>=', '==', '!='}


def ptr(addr, off=None):
    return mk('struct', 'cptr', (('a', mk('ref', addr, ())), ('o', off if off is not None else I(0))))


def ast(path):
    r = subprocess.run(CLANG + ['-I', os.path.dirname(path), path], capture_output=True)
    if r.returncode or not r.stdout:
        raise RuntimeError('clang: ' + r.stderr.decode(errors='replace')[:400])
    return json.loads(r.stdout)


class CUnit:
    """Functions and global variables of one C file."""

    def __init__(self, path, rel):
        self.rel = rel
        self.fns, self.vars, self.enums = {}, {}, {}
        self.line = 0
        self.ids = {}
        for d in ast(path)['inner']:
            k = d.get('kind')
            if k == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])):
                self.fns[d['name']] = d
            elif k == 'VarDecl':
                if d['name'] not in self.vars or d.get('init'):
                    self.vars[d['name']] = d
                self.ids[d['id']] = d['name']
            elif k == 'EnumDecl':
                v = -1
                for e in d.get('inner', []):
                    v = int(e['inner'][0]['value']) if e.get('inner') and 'value' in e['inner'][0] else v + 1
                    self.enums[e['name']] = v
        self.bodies = {}

    # ---------------------------------------------------------------- types
    def cty(self, d):
        q = d.get('type', {})
        q = q.get('desugaredQualType') or q.get('qualType', '')
        if q.endswith(']') or '*' in q:
            return PTR
        return VOID if q == 'void' else INT

    def ln(self, d):
        r = d.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        if 'line' in r:
            self.line = r['line']
        return self.line

    def node(self, d, k, t, **kw):
        return dict(k=k, t=t, ln=self.ln(d), col=d.get('range', {}).get('begin', {}).get('col', 0), **kw)

    # ---------------------------------------------------------------- functions
    def body(self, name):
        if name not in self.bodies:
            d = self.fns[name]
            self.ln(d)
            self.line = d.get('loc', {}).get('line', self.line)
            ps, blk = [], None
            for x in d['inner']:
                if x['kind'] == 'ParmVarDecl':
                    ps.append({'k': 'Bind', 'id': x['id'], 'n': x.get('name', '_'), 't': self.cty(x)})
                elif x['kind'] == 'CompoundStmt':
                    blk = self.stmt(x)
            self.bodies[name] = {'id': 'c::' + name, 'path': 'c::' + name, 'dk': 'Fn', 'file': self.rel, 'line': d['loc'].get('line', 0),
                                 'generics': [], 'params': ps, 'body': blk, '_tys': TYS, '_crate': 'c', 'name': name}
        return self.bodies[name]

    def block(self, d, st):
        return self.node(d, 'Block', VOID, st=st)

    def stmt(self, d):
        k = d['kind']
        self.ln(d)
        if k == 'CompoundStmt':
            return self.block(d, [self.stmt(x) for x in d.get('inner', [])])
        if k == 'DeclStmt':
            out = []
            for x in d['inner']:
                if x['kind'] != 'VarDecl' or x.get('storageClass') == 'static' or x['type']['qualType'].endswith(']'):
                    raise Unsupported('declaration ' + x['kind'])
                s = self.node(x, 'SLet', VOID, p={'k': 'Bind', 'id': x['id'], 'n': x['name'], 't': self.cty(x)})
                if x.get('inner'):
                    s['e'] = self.expr(x['inner'][-1])
                out.append(s)
            return out[0] if len(out) == 1 else self.flatten(d, out)
        if k == 'NullStmt':
            return self.block(d, [])
        if k == 'ReturnStmt':
            return self.node(d, 'Ret', VOID, e=self.expr(d['inner'][0]) if d.get('inner') else None)
        if k == 'IfStmt':
            if d.get('hasInit') or d.get('hasVar'):
                raise Unsupported('if with declaration')
            i = d['inner']
            return self.node(d, 'If', VOID, c=self.cond(i[0]), th=self.stmt(i[1]), el=self.stmt(i[2]) if len(i) > 2 else None)
        if k == 'WhileStmt':
            i = d['inner']
            return self.node(d, 'While', VOID, c=self.cond(i[0]), b=self.stmt(i[1]))
        if k == 'DoStmt':
            i = d['inner']
            c = self.cond(i[1])
            if self.jumps(i[0], 'ContinueStmt'):
                raise Unsupported('continue in do loop')
            return self.node(d, 'Loop', VOID, b=self.block(d, [
                self.stmt(i[0]), self.node(d, 'If', VOID, c=self.node(d, 'Un', BOOL, op='!', e=c), th=self.node(d, 'Break', VOID), el=None)]))
        if k == 'ForStmt':
            init, _, c, inc, b = d['inner']
            if inc and self.jumps(b, 'ContinueStmt'):
                raise Unsupported('continue in for loop')
            body = self.block(d, [self.stmt(b)] + ([self.effect(inc)] if inc else []))
            cc = self.cond(c) if c else self.node(d, 'Lit', BOOL, lk='bool', v=True, vs='true')
            loop = self.node(d, 'While', VOID, c=cc, b=body)
            if not c:
                loop = self.node(d, 'Loop', VOID, b=body)
            st = []
            if init:
                st.append(self.stmt(init) if init['kind'] == 'DeclStmt' else self.effect(init))
            return self.block(d, st + [loop])
        if k == 'BreakStmt':
            return self.node(d, 'Break', VOID)
        if k == 'ContinueStmt':
            return self.node(d, 'Continue', VOID)
        if k.endswith('Stmt'):
            raise Unsupported('statement ' + k)
        return self.effect(d)

    def flatten(self, d, sts):
        # several declarators of one statement stay in the enclosing scope: identifiers are unique anyway
        return self.block(d, sts)

    def jumps(self, d, kind):
        if d.get('kind') == kind:
            return True
        if d.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt') and False:
            return False
        return any(self.jumps(x, kind) for x in d.get('inner', []))

    # ---------------------------------------------------------------- expressions
    def effect(self, d):
        k = d['kind']
        if k in ('ParenExpr', 'CStyleCastExpr', 'ImplicitCastExpr'):
            return self.effect(d['inner'][-1])
        if k == 'BinaryOperator' and d['opcode'] == '=':
            return self.node(d, 'Assign', VOID, l=self.expr(d['inner'][0]), rh=self.expr(d['inner'][1]))
        if k == 'BinaryOperator' and d['opcode'] == ',':
            return self.block(d, [self.effect(x) for x in d['inner']])
        if k == 'CompoundAssignOperator':
            l = self.expr(d['inner'][0])
            op = d['opcode'][:-1]
            return self.node(d, 'Assign', VOID, l=l, rh=self.bin(d, op, l, self.expr(d['inner'][1])))
        if k == 'UnaryOperator' and d['opcode'] in ('++', '--'):
            l = self.expr(d['inner'][0])
            one_ = self.lit(d, 1)
            return self.node(d, 'Assign', VOID, l=l, rh=self.bin(d, d['opcode'][0], l, one_))
        return self.expr(d)

    def lit(self, d, v):
        return self.node(d, 'Lit', INT, lk='int', v=v, vs=str(v))

    def bin(self, d, op, a, b):
        if PTR in (a['t'], b['t']):
            if op in ('==', '!='):
                return self.node(d, 'CPtrEq', BOOL, neg=op == '!=', l=a, rh=b)
            if op in ('+', '-') and b['t'] != PTR:
                return self.node(d, 'CPtrAdd', PTR, l=a, rh=b, neg=op == '-')
            if op == '+':
                return self.node(d, 'CPtrAdd', PTR, l=b, rh=a, neg=False)
            raise Unsupported('pointer operator ' + op)
        return self.node(d, 'Bin', BOOL if op in CMP else INT, op=op, l=self.num(d, a), rh=self.num(d, b))

    def num(self, d, a):
        """A truth value used as a number."""
        if a['t'] == BOOL:
            return self.node(d, 'If', INT, c=a, th=self.lit(d, 1), el=self.lit(d, 0))
        return a

    def cond(self, d):
        return self.truth(d, self.expr(d))

    def truth(self, d, e):
        if e['t'] == BOOL:
            return e
        if e['t'] == PTR:
            return self.node(d, 'CPtrEq', BOOL, neg=True, l=e, rh=self.node(d, 'CNull', PTR))
        return self.node(d, 'Bin', BOOL, op='!=', l=e, rh=self.lit(d, 0))

    def expr(self, d):
        k = d['kind']
        self.ln(d)
        if k == 'ParenExpr':
            return self.expr(d['inner'][0])
        if k == 'ConstantExpr':
            return self.expr(d['inner'][0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            if d.get('castKind') == 'NullToPointer':
                return self.node(d, 'CNull', PTR)
            e = self.expr(d['inner'][-1])
            if d.get('castKind') in ('IntegralToPointer', 'PointerToIntegral', 'IntegralToFloating', 'FloatingToIntegral'):
                raise Unsupported(d['castKind'])
            q = d.get('type', {})
            q = q.get('desugaredQualType') or q.get('qualType', '')
            if d.get('castKind') == 'IntegralCast' and q.replace('unsigned ', '').replace('signed ', '') in ('char', 'short'):
                raise Unsupported('narrowing to ' + q)
            return e
        if k == 'IntegerLiteral':
            return self.lit(d, int(d['value']))
        if k == 'CharacterLiteral':
            return self.lit(d, int(d['value']))
        if k == 'StringLiteral':
            return self.node(d, 'CNull', PTR)
        if k == 'UnaryExprOrTypeTraitExpr':
            q = (d.get('argType') or d['inner'][0].get('type'))['qualType']
            size = 8 if '*' in q else {'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'char': 1, 'short': 2, 'size_t': 8}.get(q)
            if size is None or d.get('name') != 'sizeof':
                raise Unsupported('sizeof ' + q)
            return self.lit(d, size)
        if k == 'DeclRefExpr':
            r = d['referencedDecl']
            if r['kind'] == 'FunctionDecl':
                return self.node(d, 'CFn', PTR, n=r['name'])
            if r['kind'] == 'EnumConstantDecl':
                return self.lit(d, self.enums[r['name']])
            if r['name'] in self.vars and r['id'] in self.ids:
                return self.node(d, 'CGlob', self.cty(r), n=r['name'])
            if r.get('name') in ('stderr', 'stdout'):
                return self.node(d, 'CNull', PTR)
            return self.node(d, 'Path', self.cty(r), r='local', id=r['id'], n=r.get('name', '?'))
        if k == 'ArraySubscriptExpr':
            a, b = [self.expr(x) for x in d['inner']]
            if a['t'] != PTR:
                a, b = b, a
            return self.node(d, 'CIdx', self.cty(d), e=a, i=self.num(d, b))
        if k == 'UnaryOperator':
            op = d['opcode']
            if op == '!':
                return self.node(d, 'Un', BOOL, op='!', e=self.cond(d['inner'][0]))
            if op == '*':
                return self.node(d, 'CIdx', self.cty(d), e=self.expr(d['inner'][0]), i=self.lit(d, 0))
            if op == '&':
                return self.node(d, 'CAddr', PTR, e=self.expr(d['inner'][0]))
            if op == '-':
                return self.node(d, 'Bin', INT, op='-', l=self.lit(d, 0), rh=self.num(d, self.expr(d['inner'][0])))
            if op in ('++', '--'):
                l = self.expr(d['inner'][0])
                return self.node(d, 'CStep', l['t'], l=l, a=self.effect(d), post=bool(d.get('isPostfix')))
            if op == '~':
                return self.node(d, 'Un', INT, op='!', e=self.num(d, self.expr(d['inner'][0])))
            if op == '+':
                return self.expr(d['inner'][0])
            raise Unsupported('unary ' + op)
        if k == 'BinaryOperator':
            op = d['opcode']
            if op == '=':
                l = self.expr(d['inner'][0])
                return self.node(d, 'CStep', l['t'], l=l, a=self.effect(d), post=False)
            if op == ',':
                b = self.block(d, [self.effect(d['inner'][0])])
                b['e'] = self.expr(d['inner'][1])
                b['t'] = b['e']['t']
                return b
            if op in ('&&', '||'):
                return self.node(d, 'Bin', BOOL, op=op, l=self.cond(d['inner'][0]), rh=self.cond(d['inner'][1]))
            a, b = [self.expr(x) for x in d['inner']]
            return self.bin(d, op, a, b)
        if k == 'CompoundAssignOperator':
            l = self.expr(d['inner'][0])
            return self.node(d, 'CStep', l['t'], l=l, a=self.effect(d), post=False)
        if k == 'ConditionalOperator':
            c, a, b = d['inner']
            a, b = self.expr(a), self.expr(b)
            if a['t'] != b['t']:
                a, b = self.num(d, a), self.num(d, b)
            return self.node(d, 'If', a['t'], c=self.cond(c), th=a, el=b)
        if k == 'CallExpr':
            f = self.expr(d['inner'][0])
            if f['k'] != 'CFn':
                raise Unsupported('indirect call')
            return self.node(d, 'CCall', self.cty(d), n=f['n'], a=[self.expr(x) for x in d['inner'][1:]])
        raise Unsupported('expression ' + k)


class CInterp(Lib):
    """The dataflow engine over C nodes.  Pointers are (cell, offset) pairs; objects from malloc are cells of known length."""
    peel = True

    def __init__(self, unit, malloc=None):
        super().__init__(Prog([]))
        self.u = unit
        self.globs = {}
        self.nmalloc = 0
        self.heap = []
        self.malloc_ok = malloc or (lambda k: True)
        for name in unit.vars:
            try:
                self.glob(name)
            except Unsupported:
                pass

    # ---------------------------------------------------------------- entry
    def run(self, name, args):
        if name not in self.u.fns:
            raise KeyError(name)
        return self.val(self.call_body(self.u.body(name), list(args), {}, ''))

    def glob(self, name):
        if name not in self.globs:
            d = self.u.vars[name]
            q = d['type']['qualType']
            init = d.get('inner', [None])[-1] if d.get('init') else None
            if q.endswith(']'):
                n = int(q[q.rindex('[') + 1:-1])
                isp = '*' in q
                if q.count('[') > 1:
                    raise Unsupported('global ' + q)
                vals = []
                if init is not None:
                    sv = self.fr
                    self.fr = Frame({}, {'path': 'c::' + name, 'file': self.u.rel}, TYS, {})
                    items = init.get('inner') or [x for x in init.get('array_filler', []) if x.get('kind') != 'ImplicitValueInitExpr']
                    for x in items:
                        vals.append((NULLP if isp else I(0)) if x['kind'] == 'ImplicitValueInitExpr' else self.val(self.ev(self.u.expr(x))))
                    self.fr = sv
                vals += [NULLP if isp else I(0)] * (n - len(vals))
                v = mk('tup', *vals) if isp else lst(*vals)
            else:
                v = NULLP if '*' in q else I(0)
                if init is not None:
                    sv = self.fr
                    self.fr = Frame({}, {'path': 'c::' + name, 'file': self.u.rel}, TYS, {})
                    v = self.val(self.ev(self.u.expr(init)))
                    self.fr = sv
            self.globs[name] = self.alloc(v)
        return self.globs[name]

    def isarr(self, name):
        return self.u.vars[name]['type']['qualType'].endswith(']')

    # ---------------------------------------------------------------- nodes
    def e_CNull(self, n):
        return NULLP

    def e_CGlob(self, n):
        a = self.glob(n['n'])
        return ptr(a) if self.isarr(n['n']) else self.store[a]

    def deref(self, p, i, n):
        p = self.val(p)
        if p.op != 'struct':
            raise Unsupported('pointer value')
        a, o = p.a[1][0][1], p.a[1][1][1]
        if a.op != 'ref':
            raise Unsupported('pointer value')
        if a.a[0] == 0:
            self.event('null', n)
            raise Unsupported('null pointer dereferenced')
        off = add(o, i)
        v = self.store[a.a[0]]
        if v.op == 'tup':
            if off.op != 'int':
                raise Unsupported('unresolved pointer table index')
            return a.a[0], (('f', str(off.a[0])),)
        if v.op == 'int' or (v.op == 'struct' and v.a[0] == 'cptr'):
            if off is not I(0):
                raise Unsupported('offset from a scalar')
            return a.a[0], ()
        self.event('index', n, v, off)
        return a.a[0], (('i', off),)

    def place(self, n):
        if n['k'] == 'CIdx':
            p = self.rv(n['e'])
            i = self.rv(n['i'])
            return self.deref(p, i, n)
        if n['k'] == 'CGlob' and not self.isarr(n['n']):
            return self.glob(n['n']), ()
        return super().place(n)

    def e_CIdx(self, n):
        a, p = self.place(n)
        return self.read(a, p)

    def e_CAddr(self, n):
        e = n['e']
        if e['k'] == 'CIdx':
            p, i = self.val(self.rv(e['e'])), self.rv(e['i'])
            return mk('struct', 'cptr', (p.a[1][0], ('o', add(p.a[1][1][1], i))))
        if e['k'] == 'Path':
            return ptr(self.fr.env[e['id']])
        if e['k'] == 'CGlob':
            return ptr(self.glob(e['n']))
        raise Unsupported('address of')

    def e_CPtrAdd(self, n):
        p, i = self.val(self.rv(n['l'])), self.rv(n['rh'])
        if p.op != 'struct' or p.a[0] != 'cptr':
            raise Unsupported('pointer value')
        o = p.a[1][1][1]
        return mk('struct', 'cptr', (p.a[1][0], ('o', sub(o, i) if n['neg'] else add(o, i))))

    def e_CPtrEq(self, n):
        a, b = self.val(self.rv(n['l'])), self.val(self.rv(n['rh']))
        x, y = a.a[1][0][1], b.a[1][0][1]
        if x.op != 'ref' or y.op != 'ref':
            raise Unsupported('pointer comparison')
        if x is not y:
            r = FALSE
        else:
            r = eqt(a.a[1][1][1], b.a[1][1][1], 'int')
        return bnot(r) if n['neg'] else r

    def e_CStep(self, n):
        if n['post']:
            old = self.rv(n['l'])
            self.ev(n['a'])
            return old
        self.ev(n['a'])
        return self.rv(n['l'])

    def e_CCall(self, n):
        f = n['n']
        if f in ('fprintf', 'printf', 'perror', 'puts', 'fflush', 'fputs'):
            return I(0)
        if f in ('exit', 'abort', '_exit'):
            for a in n['a']:
                self.rv(a)
            self.event('exit', n)
            self.live = FALSE
            return NOTHING
        if f == 'free':
            self.event('free', n, self.rv(n['a'][0]))
            return UNIT
        args = [self.val(self.rv(a)) for a in n['a']]
        if self.live is FALSE:
            return NOTHING
        if f in ('malloc', 'calloc'):
            size = args[0] if f == 'malloc' else mul(args[0], args[1])
            self.nmalloc += 1
            if not self.malloc_ok(self.nmalloc):
                return NULLP
            m = fdiv(size, I(4))
            v = fresh(m)
            a = self.alloc(NOTHING)
            self.heap.append(a)
            self.store[a] = arr(m, v, I(0) if f == 'calloc' else NOTHING)
            return ptr(a)
        if f in ('memset', 'memcpy', 'memmove'):
            return self.mem(f, args, n)
        if f in self.u.fns:
            return self.call_body(self.u.body(f), args, {}, self.loc(n))
        return self.unk('call ' + f, n)

    def mem(self, f, args, n):
        cnt = fdiv(args[2], I(4))
        d = args[0]
        da, do = d.a[1][0][1].a[0], d.a[1][1][1]
        cur = self.store[da]
        if f == 'memset':
            if args[1] is not I(0):
                raise Unsupported('memset')
            v = fresh(cnt)
            new = arr(cnt, v, I(0))
        else:
            s = args[1]
            sa, so = s.a[1][0][1].a[0], s.a[1][1][1]
            self.event('slice', n, self.store[sa], so, add(so, cnt))
            new = seqslice(self.store[sa], so, add(so, cnt))
        self.event('slice', n, cur, do, add(do, cnt))
        self.store[da] = cat(seqslice(cur, I(0), do), new, seqslice(cur, add(do, cnt), length(cur)))
        return d

    def is_panic(self, n):
        k = n['k']
        if k == 'Block':
            return bool(n.get('st')) and self.is_panic(n['st'][-1])
        return k == 'CCall' and n['n'] in ('exit', 'abort', '_exit')

    def int_bin(self, op, a, b, n):
        if op == '<<' and b.op == 'int':
            return mul(a, I(1 << b.a[0]))
        if op == '^' and a.op == 'int' and b.op == 'int':
            return I(a.a[0] ^ b.a[0])
        return super().int_bin(op, a, b, n)
