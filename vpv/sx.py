"""Deductive verifier for LLVM IR: forward symbolic execution with contracts.

Every function is executed for *all* inputs: inputs are unconstrained terms,
branches are both taken, and a loop is cut at its header: its effect is
described by an invariant over the number k of completed iterations
("after k iterations the registers are r(k) and the memory is the entry memory
updated by the writes w(0..k-1)").  The invariant is inferred from the body and
is inductive by construction or checked (see `loop`), never bounded.

Integers are mathematical integers, read modulo 2^N where the machine would
(mode 'int'), or bit-vectors (mode 'bv').  Floats are their bit patterns;
comparisons are exact IEEE, arithmetic is uninterpreted (or exact, mode
'fpexact').
"""
import sys
import time
import subprocess
import tempfile
import threading
import os
import z3
import ir
from ir import size_of, field_off, I64, I8, PTR

sys.setrecursionlimit(100000)


END = 'end'
SLOW = float(os.environ.get('VP_SLOW', '0'))
PUSHED = 'pushed'
OWN = 'own'       # the model leaves it to the code


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


KEEP = {}


def keep(t):
    KEEP[t.get_id()] = t
    return t.get_id()


def isz(t):
    return isinstance(t, z3.ExprRef)


# ------------------------------------------------------------ polynomials
_poly = {}


def poly(t):
    """integer term -> {monomial: coef}; monomial = tuple of sorted atom ids"""
    if isinstance(t, int):
        return {(): t} if t else {}
    i = t.get_id()
    r = _poly.get(i)
    if r is not None:
        return r
    KEEP[i] = t
    if z3.is_int_value(t):
        v = t.as_long()
        r = {(): v} if v else {}
    else:
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                r = padd(r, poly(c))
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            r = poly(ch[0])
            for c in ch[1:]:
                r = padd(r, poly(c), -1)
        elif k == z3.Z3_OP_UMINUS:
            r = padd({}, poly(t.arg(0)), -1)
        elif k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in t.children():
                r = pmul(r, poly(c))
        else:
            r = {(i,): 1}
    _poly[i] = r
    return r


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pterm(p):
    """poly -> python int or z3 term (deterministic)"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    parts = []
    for m in sorted(p, key=lambda m: (len(m), m)):
        c = p[m]
        if m == ():
            parts.append(z3.IntVal(c))
            continue
        t = None
        for a in m:
            t = KEEP[a] if t is None else t * KEEP[a]
        if c != 1:
            t = z3.IntVal(c) * t
        parts.append(t)
    if len(parts) == 1:
        r = parts[0]
    else:
        r = z3.Sum(parts)
    i = keep(r)
    _poly[i] = p
    return r


def norm(t):
    return t if isinstance(t, int) else pterm(poly(t))


def pconst(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return pterm(padd(poly(a), poly(b)))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return pterm(padd(poly(a), poly(b), -1))


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return pterm(pmul(poly(a), poly(b)))


def pdivc(p, c):
    """exact division of a poly by a constant or None"""
    r = {}
    for m, v in p.items():
        if v % c:
            return None
        r[m] = v // c
    return r


def mem_divmod(self, t, c):
    import mem
    return mem.divmodc(self, t, c)


def atoms_in(t, cache={}):
    """set of ids of all leaf/subterm decl-apps contained (for occurrence checks)"""
    if not isz(t):
        return frozenset()
    i = t.get_id()
    r = cache.get(i)
    if r is not None:
        return r
    KEEP[i] = t
    s = {i}
    for c in t.children():
        s |= atoms_in(c)
    r = frozenset(s)
    cache[i] = r
    return r


def occurs(x, t):
    return isz(t) and x.get_id() in atoms_in(t)


def subst(t, pairs):
    if isinstance(t, (int, bool)) or t is None:
        return t
    if isinstance(t, Ptr):
        return Ptr(t.obj, subst(t.off, pairs))
    if isinstance(t, (tuple, list)):
        return tuple(subst(x, pairs) for x in t)
    if not isz(t):
        return t
    ps = []
    for a, b in pairs:
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        elif isinstance(b, int):
            b = z3.IntVal(b)
        ps.append((a, b))
    r = z3.substitute(t, *ps)
    if r.sort() == z3.IntSort():
        r = norm(r)
    return r


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool):
        a = z3.BoolVal(a) if isinstance(a, bool) else a
        b = z3.BoolVal(b) if isinstance(b, bool) else b
    elif isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        a, b = z3.IntVal(a), z3.IntVal(b)
    elif isinstance(a, int):
        a = z3.IntVal(a) if b.sort() == z3.IntSort() else z3.BitVecVal(a, b.size())
    elif isinstance(b, int):
        b = z3.IntVal(b) if a.sort() == z3.IntSort() else z3.BitVecVal(b, a.size())
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def bterm(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def And(*cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        r.append(c)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        r.append(c)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def comm_facts(ts):
    """a+b = b+a, a*b = b*a for the floating point operations that occur"""
    out, seen, st = [], set(), list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 2 and t.decl().name() in ('fadd32', 'fadd64', 'fmul32', 'fmul64') and not t.arg(0).eq(t.arg(1)):
                out.append(t == t.decl()(t.arg(1), t.arg(0)))
            st.extend(t.children())
    return out


def conjuncts(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return [c for a in t.children() for c in conjuncts(a)]
    if k == z3.Z3_OP_ITE and z3.is_false(t.arg(2)):
        return conjuncts(t.arg(0)) + conjuncts(t.arg(1))
    return [t]


def Not(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def cmpop(op, a, b):
    """integer comparison with folding through the polynomial normal form"""
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '==': a == b}[op]
    d = padd(poly(a), poly(b), -1)
    c = pconst(d)
    if c is not None:
        return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
    az = a if isz(a) else z3.IntVal(a)
    bz = b if isz(b) else z3.IntVal(b)
    if op == '<':
        return az < bz
    if op == '<=':
        return az <= bz
    return az == bz


def lt(a, b):
    return cmpop('<', a, b)


def le(a, b):
    return cmpop('<=', a, b)


def eq(a, b):
    return cmpop('==', a, b)


# ------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return '&%s+%s' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    _n = 0
    byid = {}

    def __init__(self, name, size, gran=None, kind=None, init=None, const=False, fn=None):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.size, self.gran, self.kind = name, size, gran, kind
        self.init = init          # callable(exe, st, off, size, ty) or None (undefined content)
        self.const = const
        self.fn = fn
        self.addr = None
        self.uf = {}
        self.loopdepth = 0
        self.heap = False
        Obj.byid[self.id] = self

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


# ------------------------------------------------------------ memory log
class Node:
    __slots__ = ('e', 'up', 'n')

    def __init__(self, e, up):
        self.e, self.up = e, up
        self.n = (up.n if up else 0) + 1


class W:
    __slots__ = ('off', 'size', 'val', 'ty')

    def __init__(self, off, size, val, ty):
        self.off, self.size, self.val, self.ty = off, size, val, ty


class Cpy:
    __slots__ = ('lo', 'len', 'sobj', 'snode', 'slo')

    def __init__(self, lo, ln, sobj, snode, slo):
        self.lo, self.len, self.sobj, self.snode, self.slo = lo, ln, sobj, snode, slo


class Fil:
    __slots__ = ('lo', 'len', 'byte')

    def __init__(self, lo, ln, byte):
        self.lo, self.len, self.byte = lo, ln, byte


class Opaque:
    """the contents of [lo,lo+len) (None: everything) are unknown, fixed per (uf)"""
    __slots__ = ('uid', 'lo', 'len', 'uf', 'gran', 'kind', 'kst')

    def __init__(self, uid, lo=None, ln=None, gran=None, kind=None, kst=()):
        self.uid, self.lo, self.len = uid, lo, ln
        self.uf = {}
        self.kst = kst
        self.gran, self.kind = gran, kind


class Rng:
    """for all k in [0,K) (binders, outermost first) with guard: inner entry e(k) was applied.
    inner: W / Cpy / Fil over the bound symbols"""
    __slots__ = ('binds', 'inner', 'guards', 'facts')

    def __init__(self, binds, inner, guards, facts):
        self.binds, self.inner, self.guards, self.facts = binds, inner, guards, facts


def map_entry(e, f):
    if isinstance(e, W):
        return W(f(e.off), e.size, f(e.val), e.ty)
    if isinstance(e, Cpy):
        return Cpy(f(e.lo), f(e.len), e.sobj, e.snode, f(e.slo))
    if isinstance(e, Fil):
        return Fil(f(e.lo), f(e.len), f(e.byte))
    raise Unsupported('map_entry')


# ------------------------------------------------------------ state
class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'pc', 'prev', 'ret', 'cont', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.bb = None
        self.pc = 0
        self.prev = None
        self.ret = None        # register of the caller receiving the result
        self.cont = None       # python continuation(exe, st, value) run at return (models)
        self.allocas = []

    def clone(self):
        f = Frame(self.fn)
        f.regs = dict(self.regs)
        f.bb, f.pc, f.prev, f.ret, f.cont = self.bb, self.pc, self.prev, self.ret, self.cont
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ('frames', 'mem', 'dead', 'pc', 'kst', 'rng', 'edge', 'gh', 'alive_facts', 'trace')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.dead = {}
        self.pc = []          # list of (term, isguard)
        self.kst = ()
        self.rng = {}
        self.edge = None
        self.gh = {}
        self.trace = ()

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.dead = dict(self.dead)
        s.pc = list(self.pc)
        s.kst = self.kst
        s.rng = dict(self.rng)
        s.edge = self.edge
        s.gh = dict(self.gh)
        s.trace = self.trace
        return s


class Obl:
    __slots__ = ('id', 'kind', 'msg', 'where', 'status', 't', 'model', 'solver', 'pc', 'cond', 'inputs', 'fid')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Exe:
    def __init__(self, mods, mode='int', fp='uf', timeout_ms=20000, opts=None):
        self.itofc = {}
        self.mods = mods
        self.mode = mode
        self.fp = fp
        self.timeout = timeout_ms
        self.opts = opts or {}
        self.obls = []
        self.quiet = 0
        self.fresh_n = 0
        self.globs = {}
        self.fnobj = {}
        self.ufobj = {}
        self.ufbits = {}    # contents functions of integer arrays: element width
        self.models = {}
        self.arng = {}         # atom id -> (lo,hi)
        self.solver = z3.Solver()
        self.stk = []
        self.nq = 0
        self.tq = 0.0
        self.inputs = []       # nondet inputs in creation order: (name, kind, term/obj..)
        self.covers = {}
        self.used_fns = {}
        self.used_models = {}
        self.loops_done = 0
        self.t0 = time.time()
        self.budget = self.opts.get('budget', 600)
        self.backends = {}
        self.ended = {'ret': 0, 'throw': 0, 'kill': 0, 'unreach': 0}
        self.ufc = {}
        import models
        models.install(self)
        self.lin = None
        if mode == 'int' and self.opts.get('lin', True):
            import lin
            self.lin = lin.Lin(self)

    # -------------------------------------------------------- lookup
    def func(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and not f.is_decl:
                return f
        for m in self.mods:
            l = m.glines.get(name)
            if l is not None and ' alias ' in ' ' + l:
                t, op, _ = m.get_global(name)
                if t == 'alias' and op[0] == 'glob':
                    return self.func(op[1])
        return None

    def fn_ptr(self, name):
        o = self.fnobj.get(name)
        if o is None:
            o = Obj('fn:' + name, 0, const=True, fn=name)
            self.fnobj[name] = o
        return Ptr(o, 0)

    def glob_ptr(self, st, name):
        f = None
        for m in self.mods:
            if name in m.funcs:
                return self.fn_ptr(name)
        o = self.globs.get(name)
        if o is not None:
            return Ptr(o, 0)
        best = None
        for m in self.mods:
            if name in m.glines:
                g = m.get_global(name)
                if g[0] == 'alias':
                    return self.const(st, g[1], PTR)
                if best is None or (best[1] is None and g[1] is not None):
                    best = g
        if best is None:
            raise Unsupported('global ' + name)
        t, init, const = best
        try:
            sz = size_of(t)
        except ValueError:
            sz = 1 << 20
        o = Obj('g:' + name, sz, const=const)
        self.globs[name] = o
        if init is not None:
            o.init = ('ginit', t, init)
        elif name == '__libc_single_threaded':
            o.init = ('ginit', t, ('int', t, 1))
        return Ptr(o, 0)

    # -------------------------------------------------------- fresh
    def fresh(self, st, name, sort):
        self.fresh_n += 1
        nm = '%s!%d' % (name, self.fresh_n)
        if st.kst:
            f = z3.Function(nm, *([z3.IntSort()] * len(st.kst)), sort)
            t = f(*[z3.IntVal(k) if isinstance(k, int) else k for k in st.kst])
        else:
            t = z3.Const(nm, sort)
        keep(t)
        return t

    def binder(self, name):
        """a bound variable: the same symbol in every context"""
        self.fresh_n += 1
        t = z3.Int('%s!%d' % (name, self.fresh_n))
        keep(t)
        return t

    def fresh_int(self, st, name, lo, hi):
        t = self.fresh(st, name, z3.IntSort())
        self.arng[t.get_id()] = (lo, hi)
        st.pc.append((z3.And(t >= lo, t <= hi), False))
        return t

    def fresh_val(self, st, name, ty):
        """arbitrary value of an IR type"""
        if ty.k == 'int':
            if ty.n == 1:
                return self.fresh(st, name, z3.BoolSort())
            if self.mode == 'bv':
                return self.fresh(st, name, z3.BitVecSort(ty.n))
            return self.fresh_int(st, name, 0, (1 << ty.n) - 1)
        if ty.k == 'float':
            return self.fresh(st, name, z3.BitVecSort(32))
        if ty.k == 'double':
            return self.fresh(st, name, z3.BitVecSort(64))
        if ty.k == 'x86_fp80':
            return self.fresh(st, name, z3.BitVecSort(80))
        if ty.k == 'ptr':
            raise Unsupported('arbitrary pointer ' + name)
        if ty.k == 'struct':
            return tuple(self.fresh_val(st, name, e) for e in ty.el)
        if ty.k == 'arr':
            return tuple(self.fresh_val(st, name, ty.el) for _ in range(ty.n))
        raise Unsupported('fresh %r' % ty)

    # -------------------------------------------------------- solver
    def sync(self, st):
        pc = st.pc
        i = 0
        n = min(len(self.stk), len(pc))
        while i < n and self.stk[i] is pc[i][0]:
            i += 1
        d = len(self.stk) - i
        if d:
            self.solver.pop(d)
            del self.stk[i:]
        for t, _ in pc[i:]:
            self.solver.push()
            if isz(t):
                self.solver.add(t)
            elif t is False:
                self.solver.add(z3.BoolVal(False))
            self.stk.append(t)

    def check(self, st, extra, timeout=None, want_model=False):
        """sat/unsat/unknown of pc & extra"""
        if time.time() - self.t0 > self.budget:
            raise Budget('time budget of %ds used up' % self.budget)
        t0 = time.time()
        self.nq += 1
        if not want_model and isz(extra) and self.quick(extra) is False:
            self.last = 'interval'
            return 'unsat'
        if self.lin is not None and not want_model:
            r = self.lin.check(st.pc, bterm(extra), 4 * (timeout or 800))
            self.tlin = getattr(self, 'tlin', 0) + time.time() - t0
            if SLOW and time.time() - t0 > SLOW:
                print('LSLOW %.2f %s %s %d %d' % (time.time() - t0, r, str(extra).replace('\n', ' ')[:200], len(st.pc), len(self.lin.P)))
            self.nlin = getattr(self, 'nlin', 0) + 1
            if r == 'unsat':
                self.tq += time.time() - t0
                self.backends['z3-lin'] = self.backends.get('z3-lin', 0) + 1
                self.last = 'z3-lin'
                return r
            if self.opts.get('linonly') and not self.full:
                # good enough to steer by; obligations go on to the other back ends
                self.tq += time.time() - t0
                return 'unknown'
        cap = self.opts.get('cap')
        if cap and not self.full:
            timeout = min(timeout or 800, cap)
        self.last = 'z3-inc'
        self.sync(st)
        s = self.solver
        s.push()
        s.add(bterm(extra))
        s.set('timeout', timeout or 800)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        m = s.model() if (want_model and r == z3.sat) else None
        s.pop()
        self.tq += time.time() - t0
        r = str(r)
        if SLOW and time.time() - t0 > SLOW:
            print('SLOW %.2f %s %s' % (time.time() - t0, r, str(extra).replace('\n', ' ')[:700]))
        if r != 'unknown':
            self.backends['z3-inc'] = self.backends.get('z3-inc', 0) + 1
        return (r, m) if want_model else r

    def hard_check(self, st, extra, ms):
        """one-shot solving with several back ends"""
        t0 = time.time()
        ts = [t for t, _ in st.pc if isz(t)]
        if any(t is False for t, _ in st.pc):
            return 'unsat', None
        s = z3.Solver()
        for t in ts:
            s.add(t)
        s.add(bterm(extra))
        s.set('timeout', ms)
        # cvc5 works on it at the same time
        other = Cvc5(s, ms)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        m = s.model() if r == 'sat' else None
        if r != 'unknown':
            self.backends['z3'] = self.backends.get('z3', 0) + 1
        elif other.result() == 'unsat':
            r = 'unsat'
            self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
        other.stop()
        self.nq += 1
        self.tq += time.time() - t0
        return r, m

    def abs_check(self, st, c):
        """try with library function results taken as any value that fits the
        facts that mention nothing else of the goal (weaker, so sound)"""
        pairs = []

        def apps(t, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t) and t.num_args() and t.decl().name().startswith('lib_'):
                pairs.append(t)
                return
            for k in t.children():
                apps(k, seen)
        apps(c, set())
        if not pairs:
            return False
        sub = [(t, z3.Const('abs!%d' % i, t.sort())) for i, t in enumerate(pairs)]

        def consts(t, out, seen):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            for k in t.children():
                consts(k, out, seen)
        goal = z3.substitute(c, *sub)
        have = set()
        consts(goal, have, set())
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(z3.Not(goal))
        for t, _ in st.pc:
            if isz(t):
                # a conjunction (in the if-form) is taken apart
                for t in conjuncts(t):
                    q = z3.substitute(t, *sub)
                    h = set()
                    consts(q, h, set())
                    if h <= have:
                        s.add(q)
        t0 = time.time()
        r = s.check()
        self.nq += 1
        self.tq += time.time() - t0
        return r == z3.unsat

    def proves(self, st, cond, timeout=400):
        """cheap check used for simplification only"""
        if isinstance(cond, bool):
            return cond
        q = self.quick(cond)
        if q is not None:
            return q
        return self.check(st, z3.Not(cond), timeout) == 'unsat'

    # interval quick path
    def ival(self, t, d=0):
        if isinstance(t, int):
            return (t, t)
        r = self.arng.get(t.get_id())
        if r is not None:
            return r
        if d > 6:
            return (None, None)
        p = poly(t)
        if len(p) == 1 and (t.get_id(),) in p:
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                n = self.ufbits.get(t.decl().name())
                return (None, None) if n is None else (0, (1 << n) - 1)
            if k == z3.Z3_OP_ITE:
                a = self.ival(t.arg(1), d + 1)
                b = self.ival(t.arg(2), d + 1)
                return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                        None if a[1] is None or b[1] is None else max(a[1], b[1]))
            if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
                return (0, t.arg(1).as_long() - 1)
            if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
                a = self.ival(t.arg(0), d + 1)
                v = t.arg(1).as_long()
                if v > 0:
                    return (None if a[0] is None else a[0] // v, None if a[1] is None else a[1] // v)
            return (None, None)
        lo = hi = 0
        for m, c in p.items():
            ml = mh = 1
            for a in m:
                al, ah = self.ival(KEEP[a], d + 1)
                if al is None or al < 0 or ml is None or ml < 0:
                    if len(m) == 1:
                        ml, mh = al, ah
                    else:
                        ml = mh = None
                    continue
                ml = ml * al
                mh = None if (mh is None or ah is None) else mh * ah
            if c < 0:
                ml, mh = mh, ml
            lo = None if lo is None or ml is None else lo + c * ml
            hi = None if hi is None or mh is None else hi + c * mh
        return (lo, hi)

    def quick(self, cond):
        """decide simple integer comparisons by intervals"""
        try:
            k = cond.decl().kind()
        except Exception:
            return None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = cond.arg(0), cond.arg(1)
            if not z3.is_int(a):
                return None
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            lo, hi = self.ival(pterm(padd(poly(b), poly(a), -1)))
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if lo is not None and (lo > 0 or (lo == 0 and not strict)):
                return True
            if hi is not None and (hi < 0 or (hi == 0 and strict)):
                return False
            return None
        if k == z3.Z3_OP_EQ and z3.is_int(cond.arg(0)):
            lo, hi = self.ival(pterm(padd(poly(cond.arg(0)), poly(cond.arg(1)), -1)))
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            return None
        if k == z3.Z3_OP_NOT:
            r = self.quick(cond.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            rs = [self.quick(c) for c in cond.children()]
            d = k == z3.Z3_OP_OR
            if d in rs:
                return d
            return None if None in rs else not d
        return None

    # -------------------------------------------------------- obligations
    def assume(self, st, c, guard=False):
        if c is True:
            return
        if c is False:
            st.pc.append((z3.BoolVal(False), guard))
            return
        st.pc.append((c, guard))

    full = False

    def oblige(self, st, cond, kind, msg, where=''):
        self.full = True
        try:
            self.oblige1(st, cond, kind, msg, where)
        finally:
            self.full = False

    def oblige1(self, st, cond, kind, msg, where=''):
        if self.quiet:
            self.assume(st, cond)
            return
        o = Obl(id=len(self.obls), kind=kind, msg=msg, where=where)
        t0 = time.time()
        if cond is True:
            o.status = 'proved'
            o.solver = 'simplifier'
        else:
            c = bterm(cond)
            if isz(c) and self.quick(c) is True:
                o.status = 'proved'
                o.solver = 'interval'
            else:
                r = self.check(st, z3.Not(c), 2000)
                o.solver = self.last
                if r != 'unsat' and self.fp != 'exact':
                    cm = comm_facts([c] + [t for t, _ in st.pc if isz(t)]) + list(self.itofc.values())
                    if cm:
                        c2 = z3.Not(z3.Implies(z3.And(*cm), c))
                        r = self.check(st, c2, 2000)
                        o.solver = self.last
                        c0, c = c, z3.Not(c2)
                if r != 'unsat' and self.fp == 'exact' and self.abs_check(st, c):
                    r = 'unsat'
                    o.solver = 'z3'
                if r != 'unsat':
                    r, m = self.hard_check(st, z3.Not(c), self.timeout)
                    o.solver = 'z3/cvc5'
                    if r == 'sat':
                        o.model = m
                if r == 'unsat':
                    o.status = 'proved'
                else:
                    o.status = 'failed' if r == 'sat' else 'unknown'
                    o.pc = [t for t, _ in st.pc]
                    o.cond = c
                    o.inputs = list(self.inputs)
        o.t = time.time() - t0
        self.obls.append(o)
        if o.status != 'proved' and self.opts.get('stop_first', True):
            raise Failed(o)
        self.assume(st, cond)

    # -------------------------------------------------------- integers
    def U(self, st, t, n):
        """canonical unsigned reading of t (mod 2^n)"""
        if isinstance(t, bool):
            return int(t)
        if isinstance(t, int):
            return t & ((1 << n) - 1)
        if z3.is_bool(t):
            return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        key = (keep(t), n, 'u')
        r = st.rng.get(key)
        if r is not None:
            return r
        M = 1 << n
        lo, hi = self.ival(t)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            r = t
        elif lo is not None and lo >= 0 and self.proves(st, t < M):
            r = t
        elif (lo is None or lo < 0) and self.proves(st, z3.And(t >= 0, t < M)):
            r = t
        else:
            r = t % M
            keep(r)
        st.rng[key] = r
        return r

    def S(self, st, t, n):
        if isinstance(t, bool):
            return -int(t) if n == 1 else int(t)
        if isinstance(t, int):
            t &= (1 << n) - 1
            return t - (1 << n) if t >> (n - 1) else t
        if z3.is_bool(t):
            return z3.If(t, z3.IntVal(-1 if n == 1 else 1), z3.IntVal(0))
        key = (keep(t), n, 's')
        r = st.rng.get(key)
        if r is not None:
            return r
        M = 1 << n
        H = M >> 1
        lo, hi = self.ival(t)
        if lo is not None and hi is not None and lo >= -H and hi < H:
            r = t
        elif self.proves(st, z3.And(t >= -H, t < H)):
            r = t
        else:
            u = self.U(st, t, n)
            if self.proves(st, u >= H):
                r = isub(u, M)
            else:
                r = z3.If(u < H, u, u - M)
                keep(r)
        st.rng[key] = r
        return r

    def icmp(self, st, pred, a, b, n):
        if isz(a) and z3.is_int(a):
            a = self.clean(st, a, 1)
        if isz(b) and z3.is_int(b):
            b = self.clean(st, b, 1)
        if pred in ('eq', 'ne'):
            if isz(a) and z3.is_bool(a) or isinstance(a, bool) or n == 1:
                a2, b2 = self.tobool(a), self.tobool(b)
                if isinstance(a2, bool) and isinstance(b2, bool):
                    r = a2 == b2
                else:
                    r = bterm(a2) == bterm(b2)
            else:
                d = padd(poly(a), poly(b), -1)
                c = pconst(d)
                if c is not None:
                    r = (c % (1 << n)) == 0
                else:
                    ua, ub = self.U(st, a, n), self.U(st, b, n)
                    amod = ua is not a and not isinstance(a, int)
                    bmod = ub is not b and not isinstance(b, int)
                    if amod or bmod:
                        sa, sb = self.S(st, a, n), self.S(st, b, n)
                        sok = (isinstance(a, int) or sa is a) and (isinstance(b, int) or sb is b)
                        if sok:
                            ua, ub = sa, sb
                    r = eq(ua, ub)
            return Not(r) if pred == 'ne' else r
        if pred[0] == 'u':
            a, b = self.U(st, a, n), self.U(st, b, n)
        else:
            a, b = self.S(st, a, n), self.S(st, b, n)
        p = pred[1:]
        return {'lt': lambda: lt(a, b), 'le': lambda: le(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[p]()

    def tobool(self, a):
        if isinstance(a, bool):
            return a
        if isinstance(a, int):
            return bool(a & 1)
        if z3.is_bool(a):
            return a
        if z3.is_bv(a):
            return a == 1
        return a % 2 == 1

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.ufc.get(k)
        if f is None:
            f = z3.Function(name, *sorts)
            self.ufc[k] = f
        return f

    def ubits(self, st, op, a, b, n):
        """and/or/xor/shl/lshr/ashr in integer mode"""
        M = 1 << n
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    y &= M - 1
                    if y == M - 1:
                        return x
                    if y == 0:
                        return 0
                    if y & (y + 1) == 0:
                        u = self.U(st, x, n)
                        lo, hi = self.ival(u)
                        if lo is not None and hi is not None and lo >= 0 and hi <= y:
                            return u
                        dm = mem_divmod(self, u, y + 1)
                        if dm is not None:
                            return dm[1]
                        r = u % (y + 1)
                        keep(r)
                        return r
                    # contiguous mask  2^h - 2^l
                    l = (y & -y).bit_length() - 1
                    z = y >> l
                    if z & (z + 1) == 0:
                        u = self.U(st, x, n)
                        if isinstance(u, int):
                            return u & y
                        q = u / (1 << l)
                        keep(q)
                        r = imul(q % (z + 1), 1 << l)
                        return r
        if op in ('or', 'xor'):
            if isinstance(a, int) and isinstance(b, int):
                return (a | b if op == 'or' else a ^ b) & (M - 1)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y & (M - 1) == 0:
                    return x
                if op == 'xor' and isinstance(y, int) and y & (M - 1) == M - 1:
                    return isub(-1, x)
            ua, ub = self.U(st, a, n), self.U(st, b, n)
            # disjoint bits: one is a multiple of 2^s, the other below 2^s
            for x, y in ((ua, ub), (ub, ua)):
                lo, hi = self.ival(y)
                if hi is not None and lo is not None and lo >= 0:
                    s = hi.bit_length()
                    if pdivc(poly(x), 1 << s) is not None:
                        return iadd(x, y)
        if op == 'shl' and isinstance(b, int):
            return imul(a, 1 << b)
        if op == 'lshr' and isinstance(b, int):
            u = self.U(st, a, n)
            if isinstance(u, int):
                return u >> b
            q = pdivc(poly(u), 1 << b)
            if q is not None:
                return pterm(q)
            dm = mem_divmod(self, u, 1 << b)
            if dm is not None:
                return dm[0]
            r = u / (1 << b)
            keep(r)
            return r
        if op == 'ashr' and isinstance(b, int):
            s = self.S(st, a, n)
            if isinstance(s, int):
                return s >> b
            q = pdivc(poly(s), 1 << b)
            if q is not None:
                return pterm(q)
            r = s / (1 << b)
            keep(r)
            return r
        if isinstance(a, int) and isinstance(b, int):
            if op == 'and':
                return a & b & (M - 1)
        if op in ('shl',) and not isinstance(b, int):
            ub = self.U(st, b, n)
            p2 = self.pow2(st, ub, n)
            return imul(a, p2)
        # generic: through bit-vectors
        I, B = z3.IntSort(), z3.BitVecSort(n)
        ba = z3.Int2BV(a if isz(a) else z3.IntVal(a), n)
        bb = z3.Int2BV(b if isz(b) else z3.IntVal(b), n)
        r = {'and': lambda: ba & bb, 'or': lambda: ba | bb, 'xor': lambda: ba ^ bb, 'shl': lambda: ba << bb,
             'lshr': lambda: z3.LShR(ba, bb), 'ashr': lambda: ba >> bb}[op]()
        t = z3.BV2Int(r)
        keep(t)
        self.arng[t.get_id()] = (0, M - 1)
        return t

    def pow2(self, st, b, n):
        r = z3.IntVal(1)
        t = z3.IntVal(0)
        for i in range(n - 1, -1, -1):
            t = z3.If(b == i, z3.IntVal(1 << i), t)
        keep(t)
        return t

    def binop_int(self, st, op, a, b, n, fl, ins):
        M = 1 << n
        if n == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op in ('and', 'mul'):
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(b, bool):
                    return Not(a) if b else a
                if isinstance(a, bool):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isz(a) and z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isz(b) and z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl and self.opts.get('overflow', True) and not (isinstance(a, int) and isinstance(b, int)):
                sa, sb = self.S(st, a, n), self.S(st, b, n)
                r = {'add': iadd, 'sub': isub, 'mul': imul}[op](sa, sb)
                self.oblige(st, And(le(-(M >> 1), r), lt(r, M >> 1)), 'overflow',
                            'signed %s does not overflow' % op, ins.line if ins else '')
                return r
            r = {'add': iadd, 'sub': isub, 'mul': imul}[op](a, b)
            if isinstance(r, int):
                r &= M - 1
            return r
        if op in ('udiv', 'urem'):
            ua, ub = self.U(st, a, n), self.U(st, b, n)
            self.oblige(st, Not(eq(ub, 0)), 'div0', 'division by zero', ins.line if ins else '')
            if isinstance(ua, int) and isinstance(ub, int):
                return ua // ub if op == 'udiv' else ua % ub
            if isinstance(ua, int) and ua == 0:
                return 0
            if isinstance(ub, int):
                q = pdivc(poly(ua), ub)
                if q is not None:
                    return pterm(q) if op == 'udiv' else 0
            else:
                # exact quotient by a symbolic divisor: ua == q*ub syntactically
                q = self.pexact(ua, ub)
                if q is not None:
                    return q if op == 'udiv' else 0
            ua = ua if isz(ua) else z3.IntVal(ua)
            ub2 = ub if isz(ub) else z3.IntVal(ub)
            if isinstance(ub, int):
                t = ua / ub2 if op == 'udiv' else ua % ub2
                keep(t)
                return t
            return self.symdiv(st, ua, ub2, op)
        if op in ('sdiv', 'srem'):
            sa, sb = self.S(st, a, n), self.S(st, b, n)
            self.oblige(st, Not(eq(sb, 0)), 'div0', 'division by zero', ins.line if ins else '')
            if isinstance(sa, int) and isinstance(sb, int):
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return q if op == 'sdiv' else sa - q * sb
            self.oblige(st, Or(Not(eq(sb, -1)), Not(eq(sa, -(M >> 1)))), 'overflow', 'INT_MIN / -1',
                        ins.line if ins else '')
            if isinstance(sb, int):
                q = pdivc(poly(sa), sb)
                if q is not None:
                    return pterm(q) if op == 'sdiv' else 0
            sa = sa if isz(sa) else z3.IntVal(sa)
            sbz = sb if isz(sb) else z3.IntVal(sb)
            if self.proves(st, z3.And(sa >= 0, sbz > 0)):
                if isinstance(sb, int):
                    t = sa / sbz if op == 'sdiv' else sa % sbz
                    keep(t)
                    return t
                return self.symdiv(st, sa, sbz, 'udiv' if op == 'sdiv' else 'urem')
            aa = z3.If(sa >= 0, sa, -sa)
            ab = z3.If(sbz >= 0, sbz, -sbz)
            q = aa / ab
            q = z3.If((sa >= 0) == (sbz >= 0), q, -q)
            keep(q)
            if op == 'sdiv':
                return q
            return isub(sa, imul(q, sb))
        return self.ubits(st, op, a, b, n)

    def pexact(self, a, b):
        pb = poly(b)
        if len(pb) != 1:
            return None
        (mb, cb), = pb.items()
        r = {}
        from collections import Counter
        for m, c in poly(a).items():
            cm = Counter(m)
            cm.subtract(Counter(mb))
            if min(cm.values(), default=0) < 0 or c % cb:
                return None
            r[tuple(sorted(cm.elements()))] = c // cb
        return pterm(r)

    def symdiv(self, st, a, b, op):
        """a div/mod b with symbolic b: introduce q,r with a = q*b + r, 0<=r<b (a>=0,b>0)"""
        key = ('sdiv', keep(a), keep(b))
        qr = st.gh.get(key)
        if qr is None:
            q = self.fresh(st, 'q', z3.IntSort())
            r = self.fresh(st, 'r', z3.IntSort())
            st.pc.append((z3.And(a == q * b + r, r >= 0, r < b, q >= 0, q <= a), False))
            st.gh[key] = qr = (q, r)
            la, ha = self.ival(a)
            self.arng[q.get_id()] = (0, ha)
            lb, hb = self.ival(b)
            self.arng[r.get_id()] = (0, hb)
        return qr[0] if op == 'udiv' else qr[1]

    # -------------------------------------------------------- constants
    def const(self, st, o, ty):
        k = o[0]
        if k == 'int':
            v = o[2]
            t = o[1]
            if t.n == 1:
                return bool(v)
            if self.mode == 'bv':
                return v & ((1 << t.n) - 1)
            return v & ((1 << t.n) - 1) if t.n < 64 else (v & ((1 << t.n) - 1))
        if k == 'null':
            return NULL
        if k == 'fp':
            return z3.BitVecVal(o[2], {'float': 32, 'double': 64, 'x86_fp80': 80}[o[1].k])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(o[1])
        if k == 'glob':
            return self.glob_ptr(st, o[1])
        if k == 'gep':
            b = self.const(st, o[2], PTR)
            idx = [(t, self.const(st, x, t)) for t, x in o[3]]
            return self.gep(st, b, o[1], idx)
        if k == 'cast':
            v = self.const(st, o[3], o[2])
            return self.cast(st, o[1], v, o[2], o[4])
        if k == 'agg':
            return tuple(self.const(st, x, t) for t, x in o[2])
        if k == 'str':
            return tuple(o[1])
        if k == 'cbin':
            a, b = self.const(st, o[3], o[2]), self.const(st, o[4], o[2])
            return self.binop_int(st, o[1], a, b, o[2].n, (), None)
        raise Unsupported('const ' + k)

    def zero(self, t):
        if t.k == 'int':
            return False if t.n == 1 else 0
        if t.k == 'ptr':
            return NULL
        if t.k == 'float':
            return z3.BitVecVal(0, 32)
        if t.k == 'double':
            return z3.BitVecVal(0, 64)
        if t.k == 'x86_fp80':
            return z3.BitVecVal(0, 80)
        if t.k == 'struct':
            return tuple(self.zero(e) for e in t.el)
        if t.k == 'arr':
            return tuple(self.zero(t.el) for _ in range(t.n))
        raise Unsupported('zero %r' % t)

    def val(self, st, o, ty=None):
        if o[0] == 'reg':
            return st.frames[-1].regs[o[1]]
        return self.const(st, o, ty)

    def gep(self, st, base, t, idx):
        if base is UNDEF:
            raise Unsupported('gep on undef')
        off = base.off
        first = True
        for it, iv in idx:
            if first:
                sc = size_of(t)
                first = False
                off = iadd(off, imul(self.idx(st, iv, it), sc)) if sc else off
                continue
            if t.k == 'struct':
                off = iadd(off, field_off(t, iv))
                t = t.el[iv]
            elif t.k in ('arr', 'vec'):
                t = t.el
                off = iadd(off, imul(self.idx(st, iv, it), size_of(t)))
            else:
                raise Unsupported('gep into %r' % t)
        return Ptr(base.obj, off if isinstance(off, int) or self.mode != 'int' else self.clean(st, off))

    def clean(self, st, t, d=0):
        """an offset without case distinctions: the cases become paths"""
        if isinstance(t, int):
            return t
        todo = [a for m in poly(t) for a in m]
        sub = []
        for a in set(todo):
            x = KEEP[a]
            k = x.decl().kind() if z3.is_app(x) else None
            if k == z3.Z3_OP_ITE:
                if z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
                    continue
                import mem
                key = ('clean', a, len(st.pc))
                if d and key in st.gh:
                    continue
                c = mem.decide(self, st, x.arg(0))
                if not isinstance(c, bool):
                    st.gh[key] = 1
                    if d == 0 and not getattr(self, 'nosplit', 0):
                        raise mem.Maybe(c)
                    continue
                y = norm(x.arg(1) if c else x.arg(2))
                sub.append((x, self.clean(st, y, d)))
            elif k == z3.Z3_OP_MOD and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() in (1 << 64, 1 << 32):
                y = norm(x.arg(0))
                key = ('clean', a, len(st.pc))
                if key in st.gh:
                    continue
                y2 = self.clean(st, y, d)
                yz = y2 if isz(y2) else z3.IntVal(y2)
                if self.proves(st, z3.And(yz >= 0, yz < x.arg(1))):
                    sub.append((x, y2))
                elif y2 is not y:
                    sub.append((x, y2 % x.arg(1).as_long() if isinstance(y2, int) else y2 % x.arg(1)))
                else:
                    st.gh[key] = 1
        if not sub:
            return t
        m = {a.get_id(): b for a, b in sub}
        r = {}
        for mono, c in poly(t).items():
            q = {(): c}
            for a in mono:
                q = pmul(q, poly(m[a]) if a in m else {(a,): 1})
            r = padd(r, q)
        return pterm(r)

    def idx(self, st, v, t):
        if self.mode == 'bv' and isz(v):
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                v = v.as_signed_long()
                return v
            r = z3.BV2Int(v)
            keep(r)
            return r
        if isinstance(v, int):
            return self.S(st, v, t.n)
        if t.n == 64:
            return v          # congruent mod 2^64: pointer arithmetic is mod 2^64 as well
        return self.S(st, v, t.n)

    # -------------------------------------------------------- casts
    def cast(self, st, op, v, st_, dt):
        if v is UNDEF:
            v = self.fresh_val(st, 'undef', st_) if st_.k != 'ptr' else UNDEF
            if v is UNDEF:
                return v
        if op in ('trunc', 'zext', 'sext'):
            n, m = st_.n, dt.n
            if self.mode == 'bv':
                return self.bvcast(op, v, n, m)
            if op == 'trunc':
                if m == 1:
                    if isinstance(v, int):
                        return bool(v & 1)
                    k = v.decl().kind() if isz(v) else None
                    if k == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                        x, y = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                        if (x, y) == (1, 0):
                            return v.arg(0)
                        if (x, y) == (0, 1):
                            return z3.Not(v.arg(0))
                    u = self.U(st, v, n)
                    lo, hi = self.ival(u)
                    if lo == 0 and hi == 1:
                        return u == 1
                    return (u % 2) == 1
                if isinstance(v, int):
                    return v & ((1 << m) - 1)
                return v
            if n == 1:
                b = self.tobool(v)
                one = 1 if op == 'zext' else -1
                if isinstance(b, bool):
                    return one if b else 0
                t = z3.If(b, z3.IntVal(one), z3.IntVal(0))
                keep(t)
                return t
            return self.U(st, v, n) if op == 'zext' else self.S(st, v, n)
        if op == 'bitcast':
            if st_.k == 'int' and dt.k in ('float', 'double'):
                return self.i2f(st, v, st_.n)
            if st_.k in ('float', 'double') and dt.k == 'int':
                return self.f2i(st, v, dt.n)
            return v
        if op == 'ptrtoint':
            return self.p2i(st, v)
        if op == 'inttoptr':
            if isinstance(v, int):
                return Ptr(None, v)
            p = poly(v)
            for m, c in p.items():
                if len(m) == 1 and c == 1 and m[0] in self.addr_of:
                    return Ptr(self.addr_of[m[0]], pterm(padd(p, {m: 1}, -1)))
            raise Unsupported('inttoptr')
        if op in ('sitofp', 'uitofp'):
            return self.itof(st, op, v, st_.n, dt)
        if op in ('fptosi', 'fptoui'):
            return self.ftoi(st, op, v, st_, dt)
        if op in ('fpext', 'fptrunc'):
            return self.ftof(st, op, v, st_, dt)
        if op == 'addrspacecast':
            return v
        raise Unsupported(op)

    addr_of = {}

    def p2i(self, st, p):
        if p is UNDEF:
            raise Unsupported('ptrtoint undef')
        if p.obj is None:
            return p.off
        if p.obj.addr is None:
            a = z3.Int('addr!%s!%d' % (p.obj.name, p.obj.id))
            p.obj.addr = a
            self.addr_of[keep(a)] = p.obj
            self.arng[a.get_id()] = (16, (1 << 62))
        a = p.obj.addr
        key = ('addr', p.obj.id)
        if key not in st.gh:
            st.gh[key] = True
            st.pc.append((z3.And(a >= 16, a <= 1 << 62), False))
        return iadd(a, p.off)

    def bvcast(self, op, v, n, m):
        if isinstance(v, bool):
            v = int(v)
            if op == 'sext' and v:
                v = (1 << m) - 1
            return v
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal((1 << m) - 1 if op == 'sext' else 1, m), z3.BitVecVal(0, m))
        if isinstance(v, int):
            v &= (1 << n) - 1
            if op == 'sext' and v >> (n - 1):
                v |= ((1 << m) - 1) ^ ((1 << n) - 1)
            v &= (1 << m) - 1
            return bool(v) if m == 1 else v
        if op == 'trunc':
            r = z3.Extract(m - 1, 0, v)
            return z3.simplify(r == 1) if m == 1 else z3.simplify(r)
        return z3.simplify(z3.ZeroExt(m - n, v) if op == 'zext' else z3.SignExt(m - n, v))

    # floats <-> ints (bit patterns)
    def i2f(self, st, v, n):
        if self.mode == 'bv':
            return v if isz(v) else z3.BitVecVal(v, n)
        if isinstance(v, int):
            return z3.BitVecVal(v, n)
        u = self.U(st, v, n)
        if isz(u) and u.decl().name() == 'f2i%d' % n:
            return u.arg(0)
        f = self.uf('i2f%d' % n, z3.IntSort(), z3.BitVecSort(n))
        g = self.uf('f2i%d' % n, z3.BitVecSort(n), z3.IntSort())
        t = f(u)
        key = ('i2f', keep(t))
        if key not in st.gh:
            st.gh[key] = 1
            st.pc.append((g(t) == u, False))
        return t

    def f2i(self, st, v, n):
        if self.mode == 'bv':
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if v.decl().name() == 'i2f%d' % n:
            return v.arg(0)
        g = self.uf('f2i%d' % n, z3.BitVecSort(n), z3.IntSort())
        t = g(v)
        keep(t)
        self.arng[t.get_id()] = (0, (1 << n) - 1)
        key = ('f2i', t.get_id())
        if key not in st.gh:
            st.gh[key] = 1
            f = self.uf('i2f%d' % n, z3.IntSort(), z3.BitVecSort(n))
            st.pc.append((z3.And(t >= 0, t < (1 << n), f(t) == v), False))
        return t

    FS = {'float': z3.Float32(), 'double': z3.Float64()}
    FB = {'float': 32, 'double': 64, 'x86_fp80': 80}

    def tofp(self, v, ty):
        # reading back what was written: the same number (NaN is one value)
        if isz(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV and v.arg(0).sort() == self.FS[ty.k]:
            return v.arg(0)
        return z3.fpBVToFP(v, self.FS[ty.k])

    def itof(self, st, op, v, n, dt):
        nb = self.FB[dt.k]
        if self.mode == 'bv' and dt.k in self.FS:
            b = v if isz(v) else z3.BitVecVal(v, n)
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return z3.simplify(z3.fpToIEEEBV(f(z3.RNE(), b, self.FS[dt.k])))
        c = self.S(st, v, n) if op == 'sitofp' else self.U(st, v, n)
        if isinstance(c, int) and dt.k in self.FS:
            f = z3.simplify(z3.fpToIEEEBV(z3.fpRealToFP(z3.RNE(), z3.RealVal(c), self.FS[dt.k])))
            self.itofc[nb, c] = self.uf('itof%d' % nb, z3.IntSort(), z3.BitVecSort(nb))(z3.IntVal(c)) == f
            return f
        f = self.uf('itof%d' % nb, z3.IntSort(), z3.BitVecSort(nb))
        return f(c if isz(c) else z3.IntVal(c))

    def ftoi(self, st, op, v, sty, dt):
        n = dt.n
        v = z3.simplify(v)
        if self.mode == 'bv':
            fv = self.tofp(v, sty)
            r = z3.fpToSBV(z3.RTZ(), fv, z3.BitVecSort(n)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), fv,
                                                                                          z3.BitVecSort(n))
            return z3.simplify(r)
        if z3.is_bv_value(v):
            import struct
            x = struct.unpack('<d', struct.pack('<Q', v.as_long()))[0] if sty.k == 'double' else \
                struct.unpack('<f', struct.pack('<I', v.as_long()))[0]
            return int(x) & ((1 << n) - 1)
        f = self.uf('%s_%d_%d' % (op, self.FB[sty.k], n), z3.BitVecSort(self.FB[sty.k]), z3.IntSort())
        t = f(v)
        keep(t)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
        self.arng[t.get_id()] = (lo, hi)
        st.pc.append((z3.And(t >= lo, t <= hi), False))
        return t

    def ftof(self, st, op, v, sty, dt):
        a, b = self.FB[sty.k], self.FB[dt.k]
        vs = z3.simplify(v)
        if (self.fp == 'exact' or z3.is_bv_value(vs)) and sty.k in self.FS and dt.k in self.FS:
            return z3.simplify(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), self.tofp(vs, sty), self.FS[dt.k])))
        if op == 'fptrunc' and isz(v) and v.decl().name() == 'fpext_%d_%d' % (b, a):
            return v.arg(0)
        f = self.uf('%s_%d_%d' % (op, a, b), z3.BitVecSort(a), z3.BitVecSort(b))
        return f(v)

    def fbin(self, st, op, a, b, ty):
        nb = self.FB[ty.k]
        if a is UNDEF or b is UNDEF:
            return self.fresh_val(st, 'undef', ty)
        if ty.k in self.FS and op != 'frem':
            sa, sb = z3.simplify(a), z3.simplify(b)
            if self.fp == 'exact' or (z3.is_bv_value(sa) and z3.is_bv_value(sb)):
                fa, fb = self.tofp(sa, ty), self.tofp(sb, ty)
                F = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
                return z3.simplify(z3.fpToIEEEBV(F(z3.RNE(), fa, fb)))
        B = z3.BitVecSort(nb)
        if op in ('fadd', 'fmul') and a.get_id() > b.get_id():
            a, b = b, a
        f = self.uf('%s%d' % (op, nb), B, B, B)
        t = f(a, b)
        keep(t)
        return t

    def fcmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return self.fresh(st, 'undef', z3.BoolSort())
        if ty.k not in self.FS:
            f = self.uf('fcmp_%s_%s' % (pred, ty.k), a.sort(), b.sort(), z3.BoolSort())
            return f(a, b)
        fa, fb = self.tofp(a, ty), self.tofp(b, ty)
        un = z3.Or(z3.fpIsNaN(fa), z3.fpIsNaN(fb))
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'uno':
            r = un
        elif pred == 'ord':
            r = z3.Not(un)
        else:
            p = pred[1:]
            if p == 'ne':
                c = z3.Not(z3.fpEQ(fa, fb))      # unordered or different
                r = c if pred[0] == 'u' else z3.And(z3.Not(un), c)
            else:
                c = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p](fa, fb)
                r = z3.Or(un, c) if pred[0] == 'u' else c
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        keep(r)
        return r


class Cvc5:
    """cvc5 on the same question, in another process; its 'unsat' ends the z3 run"""

    def __init__(self, s, ms):
        self.p = self.r = None
        try:
            txt = s.to_smt2()
            fd, self.f = tempfile.mkstemp(suffix='.smt2')
            with os.fdopen(fd, 'w') as f:
                f.write('(set-logic ALL)\n' + txt)
            self.p = subprocess.Popen(['cvc5', '--tlimit=%d' % ms, '-q', self.f], stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True)
        except Exception:
            return
        self.done = False
        self.t = threading.Thread(target=self.watch, daemon=True)
        self.t.start()

    def watch(self):
        try:
            o = self.p.stdout.read()
            self.p.wait()
            self.r = o.strip().split('\n')[0]
            if self.r == 'unsat' and not self.done:
                z3.main_ctx().interrupt()
        except Exception:
            pass

    def result(self):
        if self.p is None:
            return 'unknown'
        self.t.join()
        return self.r

    def stop(self):
        if self.p is None:
            return
        self.done = True
        try:
            self.p.kill()
        except Exception:
            pass
        self.t.join()
        os.unlink(self.f)


class Failed(Exception):
    def __init__(self, o):
        self.o = o
