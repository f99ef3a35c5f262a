"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the
verification units compile to.  Nothing is dropped silently: an instruction, type or
constant this parser does not know raises ParseError, which ends the run with an error
exit (never with a verdict)."""
import re


class ParseError(Exception):
    pass


# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "fields", "packed", "name")

    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k, self.n, self.el, self.fields, self.packed, self.name = k, n, el, fields, packed, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k in ("vec", "arr"):
            return ("<%d x %r>" if self.k == "vec" else "[%d x %r]") % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{" + ",".join(map(repr, self.fields)) + "}"
        return self.k


I1, I8, I16, I32, I64 = [Ty("int", n) for n in (1, 8, 16, 32, 64)]
PTR = Ty("ptr")
VOID = Ty("void")

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|(?=\{|"))?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?|0x[0-9A-Fa-fHKLMR]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|+])
''', re.X)


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise ParseError("tokenize at %r" % s[i:i + 40])
        i = m.end()
        if m.lastgroup == 'ws':
            continue
        out.append((m.lastgroup, m.group()))
    return out


class Ts:
    """token stream"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise ParseError("expected %r got %r near %s" % (v, self.peek(), self.t[max(0, self.i - 6):self.i + 6]))
        self.i += 1

    def eof(self):
        return self.i >= len(self.t)

    # types -------------------------------------------------------------
    def type(self):
        t = self.next()
        if re.fullmatch(r'i\d+', t):
            ty = Ty("int", int(t[1:]))
        elif t == 'ptr':
            if self.accept('addrspace'):
                self.expect('('); self.next(); self.expect(')')
            ty = PTR
        elif t == 'void':
            ty = VOID
        elif t in ('float', 'double', 'half', 'x86_fp80', 'label', 'metadata', 'token'):
            ty = Ty(t)
        elif t == '[':
            n = int(self.next()); self.expect('x'); el = self.type(); self.expect(']')
            ty = Ty("arr", n, el)
        elif t == '<':
            if self.accept('{'):
                fs = self._fields('}'); self.expect('>')
                ty = Ty("struct", fields=fs, packed=True)
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>')
                ty = Ty("vec", n, el)
        elif t == '{':
            ty = Ty("struct", fields=self._fields('}'))
        elif t.startswith('%'):
            ty = self.mod.named_type(t)
        else:
            raise ParseError("type? %r" % t)
        if self.peek() == '(' and ty.k not in ():   # function type (in call)
            save = self.i
            d = 0
            self.next(); d = 1
            while d:
                x = self.next()
                d += (x == '(') - (x == ')')
            # only a function type if followed by a callee
            if self.kind() in ('gid', 'lid'):
                return ty
            self.i = save
        return ty

    def _fields(self, close):
        fs = []
        if self.accept(close):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(close):
                return fs
            self.expect(',')

    # values ------------------------------------------------------------
    def value(self, ty):
        t = self.peek()
        kd = self.kind()
        if kd == 'lid':
            self.next(); return ('local', t)
        if kd == 'gid':
            self.next(); return ('global', t)
        if kd == 'num':
            self.next()
            if ty.k in ('float', 'double'):
                return ('float', t)
            return ('int', int(t, 0))
        if kd == 'str' and t.startswith('c"'):
            self.next()
            return ('bytes', decode_cstr(t[2:-1]))
        self.next()
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'none': return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t == 'getelementptr':
            self.accept('inbounds')
            if self.peek() == 'inrange': self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); p = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', bt, p, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            ft = self.type(); v = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ccast', t, ft, v, tt)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'): self.next()
            self.expect('(')
            t1 = self.type(); a = self.value(t1); self.expect(',')
            t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', t, t1, a, b)
        if t == '[' or t == '{':
            close = ']' if t == '[' else '}'
            els = []
            if self.accept(close):
                return ('agg', els)
            while True:
                et = self.type(); els.append((et, self.value(et)))
                if self.accept(close): break
                self.expect(',')
            return ('agg', els)
        if t == '<':
            packed = self.accept('{')
            els = []
            if packed and self.accept('}'):
                self.expect('>'); return ('agg', els)
            while True:
                et = self.type(); els.append((et, self.value(et)))
                if self.peek() in ('>', '}'): break
                self.expect(',')
            if packed:
                self.expect('}')
            self.expect('>')
            return ('agg', els)
        raise ParseError("value? %r (%r)" % (t, ty))

    def skip_param_attrs(self):
        while True:
            t = self.peek()
            if t in ('noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
                     'signext', 'zeroext', 'inreg', 'nest', 'immarg', 'nofree', 'swiftself', 'swifterror', 'dead_on_unwind',
                     'allocptr', 'allocalign', 'writable'):
                self.next()
            elif t == 'align':
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'preallocated', 'inalloca',
                       'elementtype', 'memory', 'range', 'initializes', 'nofpclass', 'captures'):
                self.next(); self.expect('(')
                d = 1
                while d:
                    x = self.next()
                    d += (x == '(') - (x == ')')
            else:
                return


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('latin1', 'replace') if ord(s[i]) < 256 else s[i].encode(); i += 1
    return bytes(out)


# ----------------------------------------------------------------------------- module
class Ins:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(self, op, res=None, ty=None, a=None, line=""):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line

    def __repr__(self):
        return self.line.strip()


class Block:
    def __init__(self, name):
        self.name, self.ins, self.preds = name, [], []

    def succs(self):
        t = self.ins[-1]
        if t.op == 'br': return [t.a[0]]
        if t.op == 'condbr': return [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[1]] + [l for _, l in t.a[2]]
        if t.op == 'invoke': return [t.a['normal']]
        return []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks, self.order = {}, []
        self.entry = None


class Module:
    def __init__(self, text):
        self.types, self._typetext = {}, {}
        self.globals, self.funcs, self.decls = {}, {}, {}
        self.functext = {}
        self.aliases = {}
        self._scan(text)

    # type layout -------------------------------------------------------
    def named_type(self, name):
        if name in self.types:
            return self.types[name]
        if name not in self._typetext:
            raise ParseError("unknown type " + name)
        txt = self._typetext[name]
        ty = Ty("struct", fields=[], name=name)
        self.types[name] = ty
        if txt.strip() == 'opaque':
            ty.k = 'opaque'
            return ty
        ts = Ts(tokenize(txt), self)
        real = ts.type()
        ty.fields, ty.packed = real.fields, real.packed
        return ty

    def align(self, ty):
        k = ty.k
        if k == 'int':
            n = (ty.n + 7) // 8
            a = 1
            while a < n: a *= 2
            return min(a, 16 if n > 8 else 8)
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'arr': return self.align(ty.el)
        if k == 'vec':
            return max(1, self.size(ty))
        if k == 'struct':
            if ty.packed: return 1
            return max([self.align(f) for f in ty.fields] or [1])
        raise ParseError("align " + repr(ty))

    def size(self, ty):
        k = ty.k
        if k == 'int':
            n = (ty.n + 7) // 8
            a = self.align(ty)
            return (n + a - 1) // a * a
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'arr': return ty.n * self.size(ty.el)
        if k == 'vec':
            bits = ty.n * (ty.el.n if ty.el.k == 'int' else self.size(ty.el) * 8)
            return (bits + 7) // 8
        if k == 'struct':
            return self.field_offsets(ty)[1]
        raise ParseError("size " + repr(ty))

    def field_offsets(self, ty):
        off, offs, mx = 0, [], 1
        for f in ty.fields:
            a = 1 if ty.packed else self.align(f)
            mx = max(mx, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + mx - 1) // mx * mx
        return offs, off

    # top level ---------------------------------------------------------
    def _scan(self, text):
        lines = text.split('\n')
        i = 0
        glines = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self._typetext[nm.strip()] = rest
            elif l.startswith('@'):
                glines.append(l)
            elif l.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                self.functext[self._fname(l)] = lines[i:j + 1]
                i = j
            elif l.startswith('declare '):
                self.decls[self._fname(l)] = l
            i += 1
        self._gtext = {}
        for l in glines:
            nm = re.match(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', l).group()
            self._gtext[nm] = l

    def globals_names(self):
        return list(self._gtext)

    @staticmethod
    def _fname(l):
        return re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)(?=\()', l).group()

    def global_(self, name):
        """-> dict(const=bool, ty=Ty, init=value or None)"""
        if name in self.globals:
            return self.globals[name]
        if name not in self._gtext:
            return None
        l = self._gtext[name]
        l = re.sub(r'^@(?:"[^"]*"|[-a-zA-Z$._0-9]+) = ', '', l)
        toks = tokenize(l)
        ts = Ts(toks, self)
        const = ext = False
        while True:
            t = ts.peek()
            if t in ('global', 'constant'):
                const = (t == 'constant'); ts.next(); break
            if t == 'external': ext = True
            if t == 'alias':
                raise ParseError("alias " + name)
            if t in ('thread_local', 'addrspace', 'comdat') and ts.peek(1) == '(':
                ts.next(); ts.next(); ts.next(); ts.expect(')')
            else:
                ts.next()
        ty = ts.type()
        init = None
        if not ext and not ts.eof() and ts.peek() != ',':
            init = ts.value(ty)
        g = dict(const=const, ty=ty, init=init)
        self.globals[name] = g
        return g

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        if name not in self.functext:
            return None
        f = self._parse_func(name, self.functext[name])
        self.funcs[name] = f
        return f

    def _parse_func(self, name, lines):
        hdr = lines[0]
        ts = Ts(tokenize(hdr[len('define '):].rstrip('{ ').rstrip()), self)
        while ts.kind() != 'gid':
            # linkage / attributes / return type: find the type that precedes the name
            save = ts.i
            t = ts.peek()
            if t in ('dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'available_externally', 'hidden', 'protected',
                     'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'weak', 'linkonce', 'coldcc', 'external', 'default',
                     'tailcc'):
                ts.next(); continue
            ts.skip_param_attrs()
            if ts.i != save:
                continue
            ret = ts.type()
        ts.next()
        ts.expect('(')
        params = []
        if not ts.accept(')'):
            n = 0
            while True:
                if ts.accept('...'):
                    ts.expect(')'); break
                ty = ts.type(); ts.skip_param_attrs()
                if ts.kind() == 'lid':
                    nm = ts.next()
                else:
                    nm = '%%%d' % n
                params.append((ty, nm)); n += 1
                if ts.accept(')'): break
                ts.expect(',')
        f = Func(name, ret, params)
        cur = None
        body = lines[1:-1]
        i = 0
        numbered = [p for _, p in params if re.fullmatch(r'%\d+', p)]
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.strip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                nm = '%' + m.group(1)
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
                continue
            if cur is None:
                nm = '%' + str(len(numbered))
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
            # join continuations
            s = l.strip()
            if re.match(r'^(%\S+ = )?(tail call|musttail call|notail call|call|invoke)', s) and s.startswith(('invoke',)) or ' = invoke ' in s or s.startswith('invoke'):
                while i < len(body) and 'unwind label' not in s:
                    s += ' ' + body[i].strip(); i += 1
            elif s.startswith('switch'):
                while not s.rstrip().endswith(']') and '] ,' not in s and not re.search(r'\]\s*(, !.*)?$', s):
                    s += ' ' + body[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < len(body) and re.match(r'^\s+(cleanup|catch|filter)', body[i]):
                    s += ' ' + body[i].strip(); i += 1
            try:
                ins = self._parse_ins(s)
            except ParseError as e:
                raise ParseError("%s in %s: %s" % (e, name, s))
            cur.ins.append(ins)
        f.entry = f.order[0]
        for nm in f.order:
            for s in f.blocks[nm].succs():
                if s not in f.blocks:
                    raise ParseError("no block %s in %s" % (s, name))
                f.blocks[s].preds.append(nm)
        return f

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
            'fptrunc', 'addrspacecast'}
    FLAGS = {'nuw', 'nsw', 'exact', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
             'inbounds', 'samesign'}

    def _parse_ins(self, s):
        ts = Ts(tokenize(s), self)
        res = None
        if ts.kind() == 'lid' and ts.peek(1) == '=':
            res = ts.next(); ts.next()
        op = ts.next()
        while op in ('tail', 'musttail', 'notail'):
            op = ts.next()

        def flags():
            while ts.peek() in self.FLAGS: ts.next()

        if op in self.BIN:
            flags()
            ty = ts.type(); a = ts.value(ty); ts.expect(','); b = ts.value(ty)
            return Ins(op, res, ty, (a, b), s)
        if op in self.CAST:
            flags()
            ft = ts.type(); v = ts.value(ft); ts.expect('to'); tt = ts.type()
            return Ins(op, res, tt, (ft, v), s)
        if op in ('icmp', 'fcmp'):
            flags()
            pred = ts.next(); ty = ts.type(); a = ts.value(ty); ts.expect(','); b = ts.value(ty)
            return Ins(op, res, ty, (pred, a, b), s)
        if op == 'fneg':
            flags()
            ty = ts.type(); return Ins(op, res, ty, (ts.value(ty),), s)
        if op == 'select':
            flags()
            ct = ts.type(); c = ts.value(ct); ts.expect(',')
            ty = ts.type(); a = ts.value(ty); ts.expect(',')
            ty2 = ts.type(); b = ts.value(ty2)
            return Ins(op, res, ty, (ct, c, a, b), s)
        if op == 'phi':
            flags()
            ty = ts.type(); inc = []
            while True:
                ts.expect('['); v = ts.value(ty); ts.expect(','); b = ts.next(); ts.expect(']')
                inc.append((v, b))
                if not ts.accept(','): break
                if ts.kind() == 'meta': break
            return Ins(op, res, ty, inc, s)
        if op == 'alloca':
            ts.accept('inalloca')
            ty = ts.type(); n = None
            if ts.accept(','):
                if ts.peek() != 'align':
                    nt = ts.type(); n = ts.value(nt)
            return Ins(op, res, ty, n, s)
        if op == 'load':
            while ts.peek() in ('volatile', 'atomic'): ts.next()
            ty = ts.type(); ts.expect(','); pt = ts.type(); p = ts.value(pt)
            return Ins(op, res, ty, p, s)
        if op == 'store':
            while ts.peek() in ('volatile', 'atomic'): ts.next()
            ty = ts.type(); v = ts.value(ty); ts.expect(','); pt = ts.type(); p = ts.value(pt)
            return Ins(op, None, ty, (v, p), s)
        if op == 'getelementptr':
            flags()
            bt = ts.type(); ts.expect(','); pt = ts.type(); p = ts.value(pt); idx = []
            while ts.accept(','):
                if ts.kind() == 'meta': break
                it = ts.type(); idx.append((it, ts.value(it)))
            return Ins(op, res, bt, (p, idx, pt), s)
        if op in ('call', 'invoke'):
            while ts.peek() in ('fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'coldcc'): ts.next()
            ts.skip_param_attrs()
            rt = ts.type()
            # function type printed explicitly for varargs
            callee = ts.next()
            if callee == '(':   # vararg function type: skip
                d = 1
                while d:
                    x = ts.next(); d += (x == '(') - (x == ')')
                callee = ts.next()
            if callee == 'asm':
                # inline asm
                while ts.kind() != 'str': ts.next()
                callee = 'asm:' + ts.next()
                if ts.accept(','): callee += ts.next()
            ts.expect('(')
            args = []
            if not ts.accept(')'):
                while True:
                    at = ts.type()
                    if at.k == 'metadata':
                        d = 0
                        while not (d == 0 and ts.peek() in (',', ')')):
                            x = ts.next(); d += (x in '({') - (x in ')}')
                        args.append((at, ('undef',)))
                    else:
                        ts.skip_param_attrs()
                        args.append((at, ts.value(at)))
                    if ts.accept(')'): break
                    ts.expect(',')
            d = dict(callee=callee, args=args)
            if op == 'invoke':
                while ts.peek() != 'to': ts.next()
                ts.next(); ts.expect('label'); d['normal'] = ts.next(); ts.expect('unwind'); ts.expect('label'); d['unwind'] = ts.next()
            return Ins(op, res, rt, d, s)
        if op == 'br':
            if ts.peek() == 'label':
                ts.next(); return Ins('br', None, None, (ts.next(),), s)
            ct = ts.type(); c = ts.value(ct); ts.expect(','); ts.expect('label'); a = ts.next(); ts.expect(','); ts.expect('label')
            b = ts.next()
            return Ins('condbr', None, None, (c, a, b), s)
        if op == 'switch':
            ty = ts.type(); v = ts.value(ty); ts.expect(','); ts.expect('label'); d = ts.next(); ts.expect('[')
            cs = []
            while not ts.accept(']'):
                ct = ts.type(); cv = ts.value(ct); ts.expect(','); ts.expect('label'); cs.append((cv, ts.next()))
            return Ins('switch', None, ty, (v, d, cs), s)
        if op == 'ret':
            ty = ts.type()
            return Ins('ret', None, ty, ts.value(ty) if ty.k != 'void' else None, s)
        if op == 'unreachable': return Ins(op, line=s)
        if op in ('resume', 'landingpad'): return Ins(op, res, None, None, s)
        if op == 'extractvalue':
            ty = ts.type(); v = ts.value(ty); idx = []
            while ts.accept(','):
                if ts.kind() == 'meta': break
                idx.append(int(ts.next()))
            return Ins(op, res, ty, (v, idx), s)
        if op == 'insertvalue':
            ty = ts.type(); v = ts.value(ty); ts.expect(','); et = ts.type(); e = ts.value(et); idx = []
            while ts.accept(','):
                if ts.kind() == 'meta': break
                idx.append(int(ts.next()))
            return Ins(op, res, ty, (v, et, e, idx), s)
        if op == 'extractelement':
            ty = ts.type(); v = ts.value(ty); ts.expect(','); it = ts.type(); i = ts.value(it)
            return Ins(op, res, ty, (v, i), s)
        if op == 'insertelement':
            ty = ts.type(); v = ts.value(ty); ts.expect(','); et = ts.type(); e = ts.value(et); ts.expect(','); it = ts.type()
            i = ts.value(it)
            return Ins(op, res, ty, (v, et, e, i), s)
        if op == 'shufflevector':
            ty = ts.type(); a = ts.value(ty); ts.expect(','); t2 = ts.type(); b = ts.value(t2); ts.expect(','); mt = ts.type()
            m = ts.value(mt)
            return Ins(op, res, ty, (a, b, mt, m), s)
        if op == 'freeze':
            ty = ts.type(); return Ins(op, res, ty, (ts.value(ty),), s)
        if op == 'fence': return Ins(op, line=s)
        raise ParseError("unknown op " + op)


# ----------------------------------------------------------------------------- CFG
def loops(f):
    """natural loops: header -> set(blocks).  Irreducible flow raises."""
    if hasattr(f, '_loops'):
        return f._loops
    order, seen = [], set()

    def dfs(b):
        stack = [(b, iter(f.blocks[b].succs()))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succs())))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    preds = {b: [p for p in f.blocks[b].preds if p in idx] for b in rpo}
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    res = {}
    for b in rpo:
        for s in f.blocks[b].succs():
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise ParseError("irreducible loop in " + f.name)
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st.extend(preds[x])
    f._loops, f._idom, f._rpo = res, idom, idx
    return res
