"""Textual LLVM-18 IR reader.

Reads the `.ll` that clang/opt print for the real sources and gives the
executor a small typed instruction representation.  Function bodies are parsed
lazily: an STL-heavy module has thousands of functions, a proof touches dozens.
"""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
 | (?P<hexfp>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|\{[^}]*\}|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<cmt>;.*$)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ValueError('tok: ' + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k in ('ws', 'cmt'):
            continue
        out.append((k, m.group()))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'packed', 'name', '_sz', '_al')

    def __init__(self, k, n=0, el=None, packed=False, name=None):
        self.k, self.n, self.el, self.packed, self.name = k, n, el, packed, name
        self._sz = self._al = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return self.name or '{%s}' % ','.join(map(repr, self.el))
        return self.k


I1 = Ty('int', 1)
I8 = Ty('int', 8)
I32 = Ty('int', 32)
I64 = Ty('int', 64)
PTR = Ty('ptr')
F32 = Ty('float')
F64 = Ty('double')
VOID = Ty('void')
_ints = {1: I1, 8: I8, 32: I32, 64: I64}


def int_ty(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


def align_of(t):
    if t._al is None:
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            t._al = min(a, 16)
        elif t.k in ('ptr', 'double'):
            t._al = 8
        elif t.k == 'float':
            t._al = 4
        elif t.k == 'x86_fp80':
            t._al = 16
        elif t.k == 'arr':
            t._al = align_of(t.el)
        elif t.k == 'vec':
            t._al = max(1, size_of(t))
        elif t.k == 'struct':
            t._al = 1 if t.packed or not t.el else max(align_of(e) for e in t.el)
        else:
            t._al = 1
    return t._al


def size_of(t):
    if t._sz is None:
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = align_of(t)
            t._sz = (b + a - 1) // a * a
        elif t.k in ('ptr', 'double'):
            t._sz = 8
        elif t.k == 'float':
            t._sz = 4
        elif t.k == 'x86_fp80':
            t._sz = 16
        elif t.k in ('arr', 'vec'):
            t._sz = t.n * size_of(t.el)
        elif t.k == 'struct':
            off = 0
            for e in t.el:
                if not t.packed:
                    a = align_of(e)
                    off = (off + a - 1) // a * a
                off += size_of(e)
            a = align_of(t)
            t._sz = (off + a - 1) // a * a
        else:
            raise ValueError('sizeof %r' % t)
    return t._sz


def field_off(t, i):
    off = 0
    for j, e in enumerate(t.el):
        if not t.packed:
            a = align_of(e)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += size_of(e)
    raise IndexError


# ---------------------------------------------------------------- operands
# operand: ('reg',name) ('int',ty,v) ('null',) ('undef',ty) ('zero',ty)
#          ('glob',name) ('gep',ty,base,[idx ops]) ('cast',op,operand,ty)
#          ('fp',ty,bits) ('agg',ty,[operands]) ('str',bytes) ('blob',..)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line')

    def __init__(self, op, dst, ty, a, x=None, line=''):
        self.op, self.dst, self.ty, self.a, self.x, self.line = op, dst, ty, a, x, line

    def __repr__(self):
        return self.line


class Func:
    def __init__(self, name, ret, params, body_lines, vararg=False, sret=False):
        self.name, self.ret, self.params = name, ret, params
        self._lines = body_lines
        self._blocks = None
        self.vararg = vararg
        self.loops = None
        self.module = None

    @property
    def is_decl(self):
        return self._lines is None

    @property
    def blocks(self):
        if self._blocks is None:
            self.module._parse_body(self)
        return self._blocks


class Block:
    __slots__ = ('name', 'ins', 'phis')

    def __init__(self, name):
        self.name, self.ins, self.phis = name, [], []


PARAM_ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone returned
 zeroext signext inreg immarg nest swiftself noreturn nounwind align dereferenceable
 dereferenceable_or_null sret byval allocalign allocptr nofree range writable dead_on_unwind captures
 mustprogress cold hot uwtable inlinehint alwaysinline noinline nobuiltin builtin willreturn memory nosync
 norecurse speculatable tail musttail notail fastcc ccc coldcc unnamed_addr local_unnamed_addr
 fast nnan ninf nsz arcp contract afn reassoc dso_local convergent strictfp allocsize elementtype'''.split())


def unq(s):
    """%"foo" -> foo, @x -> x"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


class Parser:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, s):
        if self.peek()[1] == s and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, s):
        t = self.next()
        if t[1] != s:
            raise ValueError('expected %s got %r in %s' % (s, t, ' '.join(x[1] for x in self.t)))

    # -- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = int_ty(int(v[1:]))
            elif v in ('ptr',):
                t = PTR
            elif v == 'float':
                t = F32
            elif v == 'double':
                t = F64
            elif v in ('void', 'label', 'metadata', 'token', 'x86_fp80', 'fp128', 'half', 'opaque'):
                t = VOID if v == 'void' else Ty(v)
            else:
                raise ValueError('type? ' + v + ' in ' + ' '.join(x[1] for x in self.t)[:300])
        elif k == 'loc':
            t = self.m.named_type(unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', n, e)
        elif v == '{':
            t = self._struct(False)
        else:
            raise ValueError('type? %r in %s' % ((k, v), ' '.join(x[1] for x in self.t)[:300]))
        if self.peek()[1] == 'addrspace':
            self.i += 4
        # function type
        while self.peek()[1] == '(':
            self.next()
            ps = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    ps.append(self.type())
                    self.attrs()
                self.accept(',')
            t = Ty('func', 0, [t] + ps)
        return t

    def _struct(self, packed):
        el = []
        while not self.accept('}'):
            el.append(self.type())
            self.accept(',')
        return Ty('struct', 0, el, packed)

    def attrs(self):
        """skip parameter / fast-math attributes"""
        while True:
            k, v = self.peek()
            if k == 'attr':
                self.i += 1
                continue
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
                if v == 'align' and self.peek()[0] == 'num':
                    self.i += 1
                if self.peek()[1] == '(' and v in (
                        'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'range', 'memory',
                        'captures', 'allocsize', 'elementtype', 'uwtable'):
                    self._skip_paren()
                continue
            if k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
                continue
            return

    def _skip_paren(self):
        d = 0
        while True:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    # -- constants / operands
    def operand(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('reg', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'num':
            if ty.k in ('float', 'double'):
                import struct
                f = float(v)
                if ty.k == 'double':
                    return ('fp', ty, struct.unpack('<Q', struct.pack('<d', f))[0])
                return ('fp', ty, struct.unpack('<I', struct.pack('<f', f))[0])
            return ('int', ty, int(v))
        if k == 'hexfp':
            if ty.k == 'double':
                return ('fp', ty, int(v, 16))
            if ty.k == 'float':
                import struct
                d = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
                if d != d:
                    bits = int(v, 16)
                    fb = ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
                    return ('fp', ty, fb)
                return ('fp', ty, struct.unpack('<I', struct.pack('<f', d))[0])
            if v.startswith('0xK'):
                return ('fp', ty, int(v[3:], 16))
            return ('int', ty, int(v, 16))
        if k == 'word':
            if v == 'true':
                return ('int', ty, 1)
            if v == 'false':
                return ('int', ty, 0)
            if v in ('null', 'none'):
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                    if self.peek()[1] == '(' and self.peek(1)[0] == 'num':
                        self._skip_paren()
                self.expect('(')
                t = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    pt = self.type()
                    ops.append((pt, self.operand(pt)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('gep', t, ops[0][1], ops[1:])
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                st = self.type()
                o = self.operand(st)
                self.expect('to')
                dt = self.type()
                self.expect(')')
                return ('cast', v, st, o, dt)
            if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
                    self.next()
                self.expect('(')
                t1 = self.type()
                o1 = self.operand(t1)
                self.expect(',')
                t2 = self.type()
                o2 = self.operand(t2)
                self.expect(')')
                return ('cbin', v, t1, o1, o2)
            if v == 'blockaddress':
                self._skip_paren()
                return ('undef', ty)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.operand(ty)
        if k == 'str' and v.startswith('c"'):
            raw = v[2:-1]
            out = bytearray()
            i = 0
            while i < len(raw):
                if raw[i:i + 2] == '\\\\':
                    out.append(92)
                    i += 2
                elif raw[i] == '\\':
                    out.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(raw[i]))
                    i += 1
            return ('str', bytes(out))
        if v in ('{', '[', '<'):
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                close = '}'
                packed = True
            el = []
            while not self.accept(close):
                t = self.type()
                el.append((t, self.operand(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', ty, el)
        raise ValueError('operand? %r in %s' % ((k, v), ' '.join(x[1] for x in self.t)[:400]))

    def typed(self):
        t = self.type()
        self.attrs()
        if t.k == 'metadata':
            # skip to next comma at depth 0
            d = 0
            while self.i < len(self.t):
                v = self.peek()[1]
                if d == 0 and v in (',', ')'):
                    break
                if v in '([{':
                    d += 1
                if v in ')]}':
                    d -= 1
                self.i += 1
            return t, ('undef', t)
        return t, self.operand(t)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.tlines = {}
        self.funcs = {}
        self.globals = {}
        self.glines = {}
        self.aliases = {}
        with open(path) as f:
            text = f.read()
        self._scan(self._localise(text))

    COUNT = 0

    def _localise(self, text):
        """private and internal symbols get a name of their own: two modules can use the same one"""
        Module.COUNT += 1
        if Module.COUNT == 1:
            return text
        loc = set(re.findall(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (?:[a-z_]+ )*?(?:private|internal) ', text, re.M))
        loc |= set(re.findall(r'^define (?:internal|private) .*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(', text, re.M))
        if not loc:
            return text
        suf = '$m%d' % Module.COUNT

        def ren(m):
            n = m.group(1)
            if n not in loc:
                return m.group(0)
            return '@"%s%s"' % (n[1:-1], suf) if n.startswith('"') else '@' + n + suf
        return re.sub(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ren, text)

    def _scan(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.tlines[unq(nm.strip())] = rest
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                self.glines[unq(m.group(1))] = m.group(2)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._head(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                self._head(l, None)
            i += 1

    def _head(self, l, body):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
        name = unq(m.group(1))
        if name in self.funcs and not self.funcs[name].is_decl:
            return
        f = Func(name, None, None, body)
        f.module = self
        f.head = l
        self.funcs[name] = f

    def sig(self, f):
        if f.params is None:
            l = f.head
            if l.startswith('define'):
                l = l[7:]
            else:
                l = l[8:]
            m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
            pre, post = l[:m.start()], l[m.end():]
            p = Parser(self, tokenize(pre))
            LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
                    'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default',
                    'hidden', 'protected', 'dllimport', 'dllexport'}
            while p.peek()[1] in LINK or p.peek()[1] in PARAM_ATTRS or p.peek()[0] == 'str':
                v = p.next()[1]
                if p.peek()[1] == '(' and v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'range'):
                    p._skip_paren()
                elif v == 'align':
                    p.next()
            f.ret = p.type()
            p = Parser(self, tokenize(post))
            ps = []
            f.vararg = False
            while not p.accept(')'):
                if p.accept('...'):
                    f.vararg = True
                    continue
                t = p.type()
                p.attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = unq(p.next()[1])
                ps.append((t, nm))
                p.accept(',')
            f.params = ps
        return f

    def named_type(self, n):
        if n in self.types:
            return self.types[n]
        t = Ty('struct', 0, [], False, n)
        self.types[n] = t
        l = self.tlines.get(n)
        if l is None:
            raise ValueError('no type ' + n)
        if l.strip() == 'opaque':
            t.k = 'opaque'
            return t
        u = Parser(self, tokenize(l)).type()
        t.k, t.n, t.el, t.packed = u.k, u.n, u.el, u.packed
        return t

    def get_global(self, name):
        """-> (type, init operand or None, constant?)"""
        if name in self.globals:
            return self.globals[name]
        l = self.glines[name]
        # strip trailing comdat/align/metadata/section
        p = Parser(self, tokenize(l))
        is_alias = False
        const = False
        ext = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                p.next()
                break
            if v == 'alias':
                is_alias = True
                p.next()
                break
            if v in ('external', 'extern_weak', 'available_externally'):
                ext = v != 'available_externally'
            if v == 'thread_local' and p.peek(1)[1] == '(':
                p.next()
                p._skip_paren()
                continue
            p.next()
        t = p.type()
        if is_alias:
            p.accept(',')
            pt = p.type()
            r = ('alias', p.operand(pt), True)
        else:
            init = None
            if not ext and p.i < len(p.t) and p.peek()[1] != ',':
                init = p.operand(t)
            r = (t, init, const)
        self.globals[name] = r
        return r

    # ------------------------------------------------------------ bodies
    def _parse_body(self, f):
        self.sig(f)
        nparam = 0
        names = []
        for idx, (t, nm) in enumerate(f.params):
            names.append(nm if nm is not None else str(idx))
        f.params = [(t, nm) for (t, _), nm in zip(f.params, names)]
        # entry label: numeric next id or named
        blocks = {}
        order = []
        cur = None
        lines = f._lines
        i = 0
        anon = sum(1 for nm in names if nm.isdigit())
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if not l.startswith(' '):
                m = re.match(r'((?:"[^"]*")|(?:[-a-zA-Z$._0-9]+)):', l)
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block(nm)
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                nm = str(anon)
                cur = Block(nm)
                blocks[nm] = cur
                order.append(nm)
            # multi-line joins
            if re.match(r'switch ', s):
                while ']' not in s.split('[', 1)[1]:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif re.search(r'(^|= )invoke ', s):
                s += ' ' + lines[i].strip()
                i += 1
            elif re.search(r'(^|= )landingpad ', s):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    i += 1
            ins = self._ins(s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        f._blocks = blocks
        f.order = order
        f.entry = order[0]

    def _ins(self, s):
        p = Parser(self, tokenize(s))
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = unq(p.next()[1])
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        R = lambda ty, a, x=None: Ins(op, dst, ty, a, x, s)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = ('int', I64, 1)
            if p.accept(','):
                if p.peek()[1] != 'align':
                    nt, n = p.typed()
            return R(PTR, [n], t)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            _, a = p.typed()
            return R(t, [a])
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t, v = p.typed()
            p.expect(',')
            _, a = p.typed()
            return R(t, [v, a])
        if op == 'getelementptr':
            inb = False
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                inb = True
                p.next()
            t = p.type()
            p.expect(',')
            _, b = p.typed()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                it, io = p.typed()
                idx.append((it, io))
            return R(PTR, [b], (t, idx))
        if op in ('call', 'invoke'):
            while p.peek()[0] == 'word' and p.peek()[1] in PARAM_ATTRS:
                p.attrs()
            p.attrs()
            t = p.type()
            if t.k == 'func':
                t = t.el[0]
            if p.peek()[1] == 'asm':
                return Ins('asm', dst, t, [], None, s)
            callee = p.operand(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at, ao = p.typed()
                args.append((at, ao))
                p.accept(',')
            x = {'callee': callee}
            if op == 'invoke':
                # skip attrs to 'to label'
                while not (p.peek()[1] == 'to' and p.peek(1)[1] == 'label'):
                    p.next()
                p.next()
                p.next()
                x['normal'] = unq(p.next()[1])
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = unq(p.next()[1])
            return Ins('call', dst, t, args, x, s)
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                return Ins('jmp', None, VOID, [unq(p.next()[1])], None, s)
            p.type()
            c = p.operand(I1)
            p.expect(',')
            p.expect('label')
            a = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            b = unq(p.next()[1])
            return Ins('br', None, VOID, [c, a, b], None, s)
        if op == 'switch':
            t, v = p.typed()
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.typed()
                p.expect(',')
                p.expect('label')
                cases.append((cv[2], unq(p.next()[1])))
            return Ins('switch', None, t, [v, d, cases], None, s)
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return R(t, [])
            return R(t, [p.operand(t)])
        if op == 'phi':
            p.attrs()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.operand(t)
                p.expect(',')
                b = unq(p.next()[1])
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return R(t, inc)
        if op == 'select':
            p.attrs()
            ct, c = p.typed()
            p.expect(',')
            t, a = p.typed()
            p.expect(',')
            _, b = p.typed()
            return R(t, [c, a, b], ct)
        if op in ('icmp', 'fcmp'):
            p.attrs()
            if p.peek()[1] == 'samesign':
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            return R(t, [a, b], pred)
        if op in BIN:
            fl = set()
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
                                  'afn', 'reassoc'):
                fl.add(p.next()[1])
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            return R(t, [a, b], fl)
        if op == 'fneg':
            p.attrs()
            t, a = p.typed()
            return R(t, [a])
        if op in CAST:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            st, a = p.typed()
            p.expect('to')
            dt = p.type()
            return R(dt, [a], st)
        if op == 'freeze':
            t, a = p.typed()
            return R(t, [a])
        if op == 'extractvalue':
            t, a = p.typed()
            ix = []
            while p.accept(','):
                if p.peek()[0] != 'num':
                    break
                ix.append(int(p.next()[1]))
            return R(t, [a], ix)
        if op == 'insertvalue':
            t, a = p.typed()
            p.expect(',')
            vt, v = p.typed()
            ix = []
            while p.accept(','):
                if p.peek()[0] != 'num':
                    break
                ix.append(int(p.next()[1]))
            return R(t, [a, v], ix)
        if op in ('unreachable', 'landingpad', 'resume', 'fence'):
            return Ins(op, dst, VOID, [], None, s)
        if op == 'atomicrmw':
            p.accept('volatile')
            sub = p.next()[1]
            _, a = p.typed()
            p.expect(',')
            t, v = p.typed()
            return R(t, [a, v], sub)
        if op in ('cmpxchg', 'va_arg', 'extractelement', 'insertelement', 'shufflevector', 'indirectbr'):
            return Ins('unsup', dst, VOID, [], op, s)
        raise ValueError('instruction? ' + s)


# ---------------------------------------------------------------- CFG / loops
class Loop:
    __slots__ = ('header', 'blocks', 'latches')

    def __init__(self, h):
        self.header, self.blocks, self.latches = h, {h}, []


def succs(b):
    t = b.ins[-1]
    if t.op == 'jmp':
        return [t.a[0]]
    if t.op == 'br':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'call' and 'normal' in t.x:
        return [t.x['normal']]          # unwind edges are not taken (see DESIGN)
    return []


def loops_of(f):
    """natural loops {header: Loop}"""
    if f.loops is not None:
        return f.loops
    B = f.blocks
    # reachable RPO
    seen = set()
    post = []
    stack = [(f.entry, iter(succs(B[f.entry])))]
    seen.add(f.entry)
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(B[s]))))
                break
        else:
            post.append(n)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(B[b]):
            if s in num:
                preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    new = p if new is None else inter(p, new)
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(B[b]):
            if s in num and dom(s, b):
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    st.extend(preds[x])
    f.loops = loops
    f.preds = preds
    return loops
