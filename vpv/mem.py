"""memory: bounds obligations, write log, symbolic reads"""
import z3
from sx import *
import sx
from ir import size_of, field_off, I8, I64, PTR, F32, F64, int_ty


class NeedBytes(Exception):
    pass


class Maybe(Exception):
    """a pointer value depends on an undecided condition: the caller forks on it"""

    def __init__(self, cond):
        self.cond = cond


def kind_of(ty):
    if ty.k == 'int':
        return 'int'
    if ty.k in ('float', 'double', 'x86_fp80'):
        return 'float'
    return ty.k


def load(self, st, p, ty, where=''):
    if p is UNDEF:
        self.oblige(st, False, 'memory', 'read through an uninitialised pointer', where)
        return self.fresh_val(st, 'undef', ty)
    if ty.k == 'struct':
        return tuple(load(self, st, Ptr(p.obj, iadd(p.off, field_off(ty, i))), e, where) for i, e in enumerate(ty.el))
    if ty.k == 'arr':
        sz = size_of(ty.el)
        return tuple(load(self, st, Ptr(p.obj, iadd(p.off, i * sz)), ty.el, where) for i in range(ty.n))
    if p.obj is None:
        self.oblige(st, False, 'memory', 'null dereference (read)', where)
        return self.fresh_val(st, 'undef', ty)
    o = p.obj
    size = (ty.n + 7) // 8 if ty.k == "int" else size_of(ty)
    inb(self, st, p, size, 'read', where)
    v = read(self, st, o, st.mem.get(o.id), p.off, size, ty)
    if v is UNDEF and ty.k != 'ptr':
        v = self.fresh_val(st, 'uninit', ty)
        push(self, st, o, W(p.off, size, v, ty))
    if ty.k == 'int' and ty.n == 1:
        v = self.tobool(v)
    return v


def inb(self, st, p, size, what, where):
    o = p.obj
    if o.fn is not None:
        self.oblige(st, False, 'memory', '%s of a function address' % what, where)
    if st.dead.get(o.id):
        self.oblige(st, False, 'memory', '%s of freed object %s' % (what, o.name), where)
    if isinstance(p.off, int) and isinstance(o.size, int) and 0 <= p.off and (isinstance(size, int) and p.off + size <= o.size):
        self.nbounds = getattr(self, 'nbounds', 0) + 1
        return
    key = ('inb', o.id, keep(p.off) if isz(p.off) else ('c', p.off), size if isinstance(size, int) else keep(size))
    if key in st.gh:
        return
    self.oblige(st, And(le(0, p.off), le(iadd(p.off, size), o.size)), 'memory',
                '%s of %s stays inside the object' % (what, o.name), where)
    st.gh[key] = 1


def store(self, st, p, v, ty, where=''):
    if p is UNDEF:
        self.oblige(st, False, 'memory', 'write through an uninitialised pointer', where)
        return
    if ty.k == 'struct':
        if v is UNDEF:
            v = tuple(UNDEF for _ in ty.el)
        for i, e in enumerate(ty.el):
            store(self, st, Ptr(p.obj, iadd(p.off, field_off(ty, i))), v[i], e, where)
        return
    if ty.k == 'arr':
        sz = size_of(ty.el)
        for i in range(ty.n):
            store(self, st, Ptr(p.obj, iadd(p.off, i * sz)), v[i] if v is not UNDEF else UNDEF, ty.el, where)
        return
    if p.obj is None:
        self.oblige(st, False, 'memory', 'null dereference (write)', where)
        return
    size = (ty.n + 7) // 8 if ty.k == "int" else size_of(ty)
    inb(self, st, p, size, 'write', where)
    if p.obj.const:
        self.oblige(st, False, 'memory', 'write to constant %s' % p.obj.name, where)
    if ty.k == 'int' and ty.n == 1:
        v = self.cast(st, 'zext', v, ty, I8) if v is not UNDEF else v
        ty = I8
    push(self, st, p.obj, W(p.off, size, v, ty))


def push(self, st, o, e):
    st.mem[o.id] = Node(e, st.mem.get(o.id))


def memcpy(self, st, d, s, n, where=''):
    if n is UNDEF:
        raise Unsupported('memcpy undef len')
    n = self.clean(st, self.U(st, n, 64)) if self.mode == 'int' else (n if isinstance(n, int) else self.idx(st, n, I64))
    if isinstance(n, int) and n == 0:
        return
    if d is UNDEF or s is UNDEF or d.obj is None or s.obj is None:
        # zero-length copies from null are tolerated (empty vectors)
        self.oblige(st, eq(n, 0), 'memory', 'copy from/to null', where)
        return
    if not (isinstance(n, int)):
        # a zero length copy touches nothing
        if self.proves(st, eq(n, 0)):
            return
    inbn(self, st, d, n, 'write', where)
    inbn(self, st, s, n, 'read', where)
    if d.obj.const:
        self.oblige(st, eq(n, 0), 'memory', 'write to constant', where)
    if d.obj is s.obj and sx.isz(d.off) is False and d.off == s.off:
        return
    e = Cpy(d.off, n, s.obj, st.mem.get(s.obj.id), s.off)
    # small copies of decided content: keep precise typed entries
    if isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int) and n <= 4096:
        if flat_copy(self, st, d, s, n):
            return
    push(self, st, d.obj, e)


def flat_copy(self, st, d, s, n):
    """copy of a concrete byte range whose source entries are concrete: replay the writes"""
    ents = []
    need = bytearray(n)
    nd = st.mem.get(s.obj.id)
    cnt = 0
    while nd is not None:
        e = nd.e
        if not (isinstance(e, W) and isinstance(e.off, int)):
            return False
        lo, hi = e.off - s.off, e.off - s.off + e.size
        if hi > 0 and lo < n:
            if lo < 0 or hi > n:
                return False
            cov = need[lo:hi]
            if not any(cov):
                ents.append((lo, e))
                need[lo:hi] = b'\1' * (hi - lo)
            elif not all(cov):
                return False
        cnt += 1
        if cnt > 400:
            return False
        nd = nd.up
    if not all(need):
        if s.obj.init is not None or s.obj.gran is not None:
            return False
    for lo, e in sorted(ents, key=lambda x: x[0]):
        push(self, st, d.obj, W(d.off + lo, e.size, e.val, e.ty))
    return True


def inbn(self, st, p, n, what, where):
    o = p.obj
    if o.fn is not None or st.dead.get(o.id):
        self.oblige(st, eq(n, 0), 'memory', '%s of freed object' % what, where)
        return
    if isinstance(p.off, int) and isinstance(o.size, int) and isinstance(n, int) and 0 <= p.off and p.off + n <= o.size:
        self.nbounds = getattr(self, 'nbounds', 0) + 1
        return
    self.oblige(st, Or(eq(n, 0), And(le(0, p.off), le(iadd(p.off, n), o.size))), 'memory',
                '%s of %s stays inside the object' % (what, o.name), where)


def memset(self, st, d, b, n, where=''):
    n = self.clean(st, self.U(st, n, 64)) if self.mode == 'int' else (n if isinstance(n, int) else self.idx(st, n, I64))
    if isinstance(n, int) and n == 0:
        return
    if d is UNDEF or d.obj is None:
        self.oblige(st, eq(n, 0), 'memory', 'memset null', where)
        return
    inbn(self, st, d, n, 'write', where)
    push(self, st, d.obj, Fil(d.off, n, b))


# ----------------------------------------------------------------- conversion
def conv(self, st, v, fty, tty):
    if v is UNDEF:
        return v
    a, b = kind_of(fty), kind_of(tty)
    if a == b:
        return v
    if a == 'float' and b == 'int':
        return self.f2i(st, v, tty.n)
    if a == 'int' and b == 'float':
        return self.i2f(st, v, fty.n)
    if a == 'ptr' and b == 'int':
        return self.p2i(st, v)
    if a == 'int' and b == 'ptr':
        return self.cast(st, 'inttoptr', v, I64, PTR)
    raise Unsupported('conv %r %r' % (fty, tty))


def sub_bytes(self, st, v, fty, size, r, n, tty):
    """bytes r..r+n of a stored value"""
    if v is UNDEF:
        return UNDEF
    if kind_of(fty) == 'float':
        v = self.f2i(st, v, 8 * size)
    elif kind_of(fty) == 'ptr':
        v = self.p2i(st, v)
    if self.mode == 'bv':
        if isinstance(v, int):
            x = (v >> (8 * r)) & ((1 << 8 * n) - 1)
        else:
            x = z3.simplify(z3.Extract(8 * (r + n) - 1, 8 * r, v))
    else:
        u = self.U(st, v, 8 * size)
        x = self.ubits(st, 'lshr', u, 8 * r, 8 * size) if r else u
        if r + n < size:
            x = self.ubits(st, 'and', x, (1 << 8 * n) - 1, 8 * size)
    return conv(self, st, x, int_ty(8 * n), tty)


def from_bytes(self, st, bs, ty):
    n = len(bs)
    if ty.k == 'ptr':
        if all(isinstance(b, int) and b == 0 for b in bs):
            return NULL
        raise Unsupported('pointer from bytes')
    if any(b is UNDEF for b in bs):
        bs = [self.fresh_val(st, 'uninit', I8) if b is UNDEF else b for b in bs]
    if self.mode == 'bv':
        if all(isinstance(b, int) for b in bs):
            v = sum(b << (8 * i) for i, b in enumerate(bs))
        else:
            v = z3.simplify(z3.Concat(*[b if isz(b) else z3.BitVecVal(b, 8) for b in bs[::-1]]))
    else:
        v = 0
        for i, b in enumerate(bs):
            v = iadd(v, imul(self.U(st, b, 8), 1 << (8 * i)))
        if isz(v):
            self.arng[keep(v)] = (0, (1 << (8 * n)) - 1)
    return conv(self, st, v, int_ty(8 * n), ty)


# ----------------------------------------------------------------- reads
def read(self, st, obj, node, off, size, ty):
    try:
        return read1(self, st, obj, node, off, size, ty)
    except NeedBytes:
        if size == 1:
            raise Unsupported('byte read of undecided overlap in %s' % obj.name)
        bs = [read1(self, st, obj, node, iadd(off, i), 1, I8) for i in range(size)]
        return from_bytes(self, st, bs, ty)


def read1(self, st, obj, node, off, size, ty):
    alts = []
    n = node
    base = None
    while n is not None:
        r = match(self, st, obj, n.e, off, size, ty)
        if r is not None:
            c, v = r
            if c is True:
                base = v
                break
            alts.append((c, v))
        n = n.up
    else:
        base = init_read(self, st, obj, off, size, ty)
    if not alts:
        return base
    for c, v in reversed(alts):
        if base is UNDEF and v is UNDEF:
            continue
        if ty.k == 'ptr':
            if isinstance(base, Ptr) and isinstance(v, Ptr) and base.obj is v.obj:
                base = Ptr(v.obj, Ite(c, v.off, base.off))
                continue
            raise Maybe(c)
        if base is UNDEF:
            base = self.fresh_val(st, 'uninit', ty)
        if v is UNDEF:
            v = self.fresh_val(st, 'uninit', ty)
        lo1, hi1 = (None, None)
        if ty.k == 'int' and self.mode == 'int':
            a, b = self.ival(v), self.ival(base)
            if None not in a and None not in b:
                lo1, hi1 = min(a[0], b[0]), max(a[1], b[1])
        base = Ite(c, v, base)
        if isz(base):
            keep(base)
            if lo1 is not None:
                self.arng[base.get_id()] = (lo1, hi1)
    return base


def decide(self, st, c):
    if isinstance(c, bool):
        return c
    q = self.quick(c)
    if q is not None:
        return q
    if self.check(st, z3.Not(c), 300) == 'unsat':
        return True
    if self.check(st, c, 300) == 'unsat':
        return False
    return c


def match(self, st, obj, e, off, size, ty):
    """None: entry does not touch the location; (True,v): it decides it; (c,v): it does when c"""
    if isinstance(e, W):
        d = padd(poly(off), poly(e.off), -1)
        c = pconst(d)
        if c is not None:
            if c == 0 and size == e.size:
                return True, conv(self, st, e.val, e.ty, ty)
            if c >= e.size or c <= -size:
                return None
            if c >= 0 and c + size <= e.size:
                return True, sub_bytes(self, st, e.val, e.ty, e.size, c, size, ty)
            raise NeedBytes()
        if size == e.size and pdivc(d, size) is not None:
            cond = eq(pterm(d), 0)
            cond = decide(self, st, cond)
            if cond is False:
                return None
            return cond, conv(self, st, e.val, e.ty, ty)
        D = pterm(d)
        if self.proves(st, Or(le(e.size, D), le(D, -size))):
            return None
        if size == e.size and self.proves(st, Or(le(e.size, D), le(D, -size), eq(D, 0))):
            cond = decide(self, st, eq(D, 0))
            return cond, conv(self, st, e.val, e.ty, ty)
        for c in range(0, e.size - size + 1):
            if self.proves(st, eq(D, c)):
                return True, sub_bytes(self, st, e.val, e.ty, e.size, c, size, ty)
        if size == 1:
            v = None
            for c in range(e.size):
                b = sub_bytes(self, st, e.val, e.ty, e.size, c, 1, ty)
                v = b if v is None else Ite(eq(D, c), b, v)
            return And(le(0, D), lt(D, e.size)), v
        raise NeedBytes()
    if isinstance(e, (Cpy, Fil)):
        d = padd(poly(off), poly(e.lo), -1)
        D = pterm(d)
        inside = And(le(0, D), le(iadd(D, size), e.len))
        c = decide(self, st, inside)
        if c is True:
            return True, region_val(self, st, e, D, size, ty)
        out = Or(le(iadd(D, size), 0), le(e.len, D))
        if c is False:
            if decide(self, st, out) is True or self.proves(st, out):
                return None
            raise NeedBytes()
        if size > 1 and not self.proves(st, Or(inside, out)):
            raise NeedBytes()
        return c, region_val(self, st, e, D, size, ty)
    if isinstance(e, Opaque):
        if e.lo is None:
            return True, uf_read(self, st, e, 'op%d' % e.uid, off, size, ty)
        D = isub(off, e.lo)
        inside = And(le(0, D), le(iadd(D, size), e.len))
        c = decide(self, st, inside)
        if c is True:
            return True, uf_read(self, st, e, 'op%d' % e.uid, D, size, ty)
        out = Or(le(iadd(D, size), 0), le(e.len, D))
        if self.proves(st, out):
            return None
        if not self.proves(st, Or(inside, out)):
            raise NeedBytes()
        return c, uf_read(self, st, e, 'op%d' % e.uid, D, size, ty)
    if isinstance(e, Rng):
        return match_rng(self, st, obj, e, off, size, ty)
    raise Unsupported('log entry')


def region_val(self, st, e, D, size, ty):
    if isinstance(e, Cpy):
        return read(self, st, e.sobj, e.snode, iadd(e.slo, D), size, ty)
    b = e.byte
    if isinstance(b, int):
        v = 0
        for i in range(size):
            v |= (b & 255) << (8 * i)
        if ty.k == 'ptr':
            return NULL if v == 0 else UNDEF
        return conv(self, st, v, int_ty(8 * size), ty)
    return from_bytes(self, st, [b] * size, ty)


def split_lin(off, k):
    """off poly -> (c, s) with off = c + s*k, or None when not linear in the symbol k"""
    kid = k.get_id()
    c, s = {}, {}
    for m, v in poly(off).items():
        if m.count(kid) == 1:
            mm = list(m)
            mm.remove(kid)
            if any(kid in atoms_in(KEEP[a]) for a in mm):
                return None
            s[tuple(mm)] = v
        elif kid in m:
            return None
        else:
            if any(kid in atoms_in(KEEP[a]) for a in m):
                return None
            c[m] = v
    return c, s


def divide(self, st, num, s):
    """num (poly) by s (poly): (t, r, nonneg-known) with num = t*s + r, 0 <= r < |s|, or None"""
    sc = pconst(s)
    if sc is not None:
        if sc == 0:
            return None
        q, r = {}, {}
        a = abs(sc)
        rest = {}
        for m, v in num.items():
            if m == ():
                qq, rr = divmod(v, a)
                if qq:
                    q[m] = qq
                if rr:
                    rest[m] = rr
            elif v % a == 0:
                q[m] = v // a
            else:
                rest[m] = v
        if any(m != () for m in rest):
            nt = pterm(rest)
            lo, hi = self.ival(nt)
            if not (lo is not None and hi is not None and lo >= 0 and hi < a) and \
                    not self.proves(st, And(le(0, nt), lt(nt, a))):
                t = nt / a
                keep(t)
                q = padd(q, poly(t))
                rest = padd(rest, poly(imul(t, a)), -1)
        if sc < 0:
            # num = a*q + r = s*(-q) + r
            q = {m: -v for m, v in q.items()}
        return q, rest
    if len(s) != 1:
        # symbolic polynomial stride: try t = the quotient of the leading monomial
        lead = max(s, key=lambda m: (len(m), m))
        t = {}
        rest = dict(num)
        from collections import Counter
        for _ in range(8):
            done = True
            for m, v in list(rest.items()):
                cm = Counter(m)
                cm.subtract(Counter(lead))
                if min(cm.values(), default=0) >= 0 and v % s[lead] == 0:
                    tm = {tuple(sorted(cm.elements())): v // s[lead]}
                    t = padd(t, tm)
                    rest = padd(rest, pmul(tm, s), -1)
                    done = False
                    break
            if done:
                break
        return settle(self, st, t, rest, s)
    (sm, scf), = s.items()
    from collections import Counter
    t, rest = {}, {}
    for m, v in num.items():
        cm = Counter(m)
        cm.subtract(Counter(sm))
        if min(cm.values(), default=0) >= 0 and v % scf == 0:
            t[tuple(sorted(cm.elements()))] = v // scf
        else:
            rest[m] = v
    return settle(self, st, t, rest, s)


def settle(self, st, t, rest, s):
    """remainder into [0,s), one step either way; forks when only the sign is open"""
    R = pterm(rest)
    S = pterm(s)
    if self.proves(st, And(le(0, R), lt(R, S)), 800):
        return t, rest
    N = isub(0, S)
    if self.proves(st, And(le(N, R), lt(R, 0)), 400):
        return padd(t, {(): -1}), padd(rest, s)
    if self.proves(st, And(le(S, R), lt(R, iadd(S, S))), 400):
        return padd(t, {(): 1}), padd(rest, s, -1)
    if not getattr(self, 'nosplit', 0):
        if self.proves(st, And(le(N, R), lt(R, S)), 400):
            raise Maybe(bterm(le(0, R)))
        if self.proves(st, And(le(0, R), lt(R, iadd(S, S))), 400):
            raise Maybe(bterm(lt(R, S)))
    return None


def match_rng(self, st, obj, e, off, size, ty, probe=None):
    inner = e.inner
    if isinstance(inner, W):
        ioff, isize = inner.off, inner.size
        if isize < size:
            raise NeedBytes()
    else:
        ioff, isize = inner.lo, inner.len
    # successive division, outermost binder first
    ts = []
    num = poly(off)
    lin = []
    base = ioff
    ok = True
    strides = []
    for k, K in e.binds:
        sl = split_lin(base, k)
        if sl is None:
            ok = False
            break
        c, s = sl
        strides.append(s)
        base = pterm(c)
    if ok:
        num = padd(poly(off), poly(base), -1)
        for i, (k, K) in enumerate(e.binds):
            s = strides[i]
            if not s:
                ok = False
                break
            dv = divide(self, st, num, s)
            if dv is None:
                ok = False
                break
            t, num = dv
            ts.append(pterm(t))
    if not ok:
        return match_witness(self, st, obj, e, off, size, ty) if probe is None else None
    r = pterm(num)
    sub = [(k, t) for (k, K), t in zip(e.binds, ts)]
    cond = []
    for (k, K), t in zip(e.binds, ts):
        Kt = subst(K, sub)
        cond.append(le(0, t))
        cond.append(lt(t, Kt))
    last = strides[-1]
    lc = pconst(last)
    if isinstance(inner, W):
        if lc is not None and abs(lc) < isize:
            return match_witness(self, st, obj, e, off, size, ty) if probe is None else None
        if isinstance(r, int):
            if r == 0 and size == isize:
                pass
            elif r + size <= isize:
                pass
            elif lc is not None and r >= isize and r + size <= abs(lc):
                return None
            else:
                if r >= isize:
                    raise NeedBytes()
                raise NeedBytes()
        else:
            if self.proves(st, eq(r, 0)):
                r = 0
            elif size == isize and self.proves(st, Or(eq(r, 0), And(le(isize, r), le(iadd(r, size), pterm(last) if lc is None else abs(lc))))):
                cond.append(eq(r, 0))
                r = 0
            elif size == 1 and isize > 1:
                pass
            else:
                raise NeedBytes()
    else:
        L = subst(inner.len, sub)
        cond.append(le(iadd(r, size), L))
        S = abs(lc) if lc is not None else pterm(last)
        # regions of different iterations do not overlap
        kk = [(k, self.fresh(st, 'kk', z3.IntSort())) for k, _ in e.binds]
        g = subst(inner.len, kk)
        if not self.proves(st, le(inner.len if not any(occurs(k, inner.len) for k, _ in e.binds) else g, S), 800) and \
                not self.proves(st, Or(le(g, S), *[Not(subst(x, kk)) for x in e.guards]), 800):
            return match_witness(self, st, obj, e, off, size, ty) if probe is None else None
        if size > 1 and not self.proves(st, Or(le(iadd(r, size), L), And(le(L, r), le(iadd(r, size), S))), 800):
            raise NeedBytes()
    if len(e.binds) > 1:
        # uniqueness: the inner offset stays below the outer stride
        for i in range(len(e.binds) - 1):
            so = strides[i]
            # sum_{j>i} s_j*(K_j-1) + isize <= s_i
            tot = isize if isinstance(inner, W) else inner.len
            for j in range(i + 1, len(e.binds)):
                tot = iadd(tot, imul(pterm(strides[j]), isub(e.binds[j][1], 1)))
            kk = [(k, self.fresh(st, 'kk', z3.IntSort())) for k, _ in e.binds]
            tot = subst(tot, kk)
            neg = any(pconst(s) is not None and pconst(s) < 0 for s in strides)
            if neg or not self.proves(st, Or(le(tot, pterm(so)), *[le(subst(K, kk), 0) for _, K in e.binds[i + 1:]]), 1500):
                return match_witness(self, st, obj, e, off, size, ty) if probe is None else None
    cond += [subst(g, sub) for g in e.guards]
    c = decide(self, st, And(*cond))
    if probe is not None:
        probe.append((c, sub))
        return None
    if c is False:
        return None
    return c, rng_val(self, st, e, sub, r, size, ty, c)


def hit_apps(t, names, cache={}):
    """applications of witness predicates in a term"""
    if not names or not isz(t):
        return ()
    key = (t.get_id(), len(names))
    r = cache.get(key)
    if r is not None:
        return r[1]
    out, seen, work = [], set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().name() in names:
                out.append(x)
            work.extend(x.children())
    cache[key] = (t, out)
    return out


def touch(self, st, v):
    """a value written by a loop mentions the last writer of a location; once the
    location is known the writer often is as well"""
    reg = getattr(self, 'hitreg', None)
    if not reg or not isz(v):
        return v
    for _ in range(4):
        sub = []
        for h in hit_apps(v, reg):
            keep(h)
            key = ('touch', h.get_id())
            r = st.gh.get(key)
            if r is None:
                e, size, ty, obj, wf = reg[h.decl().name()]
                pr = []
                r = ()
                try:
                    match_rng(self, st, obj, e, h.arg(0), size, ty, pr)
                except NeedBytes:
                    pr = []
                if pr:
                    c, bs = pr[0]
                    r = [(h, bterm(c))] + [(f(h.arg(0)), t if isz(t) else z3.IntVal(t)) for f, (_, t) in zip(wf, bs)]
                st.gh[key] = r
            sub += r
        if not sub:
            return v
        v = rebuild(self, st, v, {a.get_id(): b for a, b in sub})
        if not isz(v):
            return v
    return v


def divmodc(self, t, c):
    """(t / c, t % c) by splitting the polynomial of t, or None"""
    if isinstance(t, int):
        return t // c, t % c
    q, r = {}, {}
    for m, v in poly(t).items():
        (q if v % c == 0 else r)[m] = v // c if v % c == 0 else v
    rt = pterm(r)
    lo, hi = self.ival(rt)
    if lo is not None and hi is not None and lo >= 0 and hi < c:
        return pterm(q), rt
    return None


def rebuild(self, st, t, sub):
    """substitute, through the simplifying constructors of the engine"""
    memo = {}

    def isint(v):
        return v.as_long() if z3.is_int_value(v) else v

    def go(t):
        i = t.get_id()
        r = memo.get(i)
        if r is None:
            r = sub.get(i)
            if r is None:
                r = go1(t)
            elif isz(r):
                r = isint(r)
            memo[i] = r
        return r

    def asz(v, like):
        if isz(v):
            return v
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return z3.IntVal(v)

    def go1(t):
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            return isint(t) if z3.is_int_value(t) else t
        old = t.children()
        a = [go(x) for x in old]
        if all(isz(x) and x.eq(y) or (not isz(x) and isint(y) == x) for x, y in zip(a, old)):
            return t
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = 0
            for x in a:
                r = iadd(r, x)
            return r
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r = imul(r, x)
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = isub(r, x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return isub(0, a[0])
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and isinstance(a[1], int) and a[1] > 0:
            dm = divmodc(self, a[0], a[1])
            if dm is not None:
                return dm[0 if k == z3.Z3_OP_IDIV else 1]
        if k == z3.Z3_OP_ITE:
            c = a[0]
            if isz(c):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            x, y = a[1], a[2]
            if isinstance(c, bool):
                return x if c else y
            r = Ite(c, x, y)
            if isz(r):
                keep(r)
            return r
        nm = t.decl().name()
        if k == z3.Z3_OP_UNINTERPRETED:
            o = self.ufobj.get(nm)
            if o is not None and len(a) == 1:
                return uf_app(self, st, o, nm, a[0])
            if nm in ('i2f32', 'i2f64'):
                return self.i2f(st, a[0], int(nm[3:]))
            if nm in ('f2i32', 'f2i64'):
                return self.f2i(st, a[0], int(nm[3:]))
        r = t.decl()(*[asz(x, y) for x, y in zip(a, old)])
        keep(r)
        if k == z3.Z3_OP_UNINTERPRETED and t.get_id() in self.arng:
            self.arng.setdefault(r.get_id(), self.arng[t.get_id()])
        return r
    return go(t)


def node_depends(node, ks, cache={}):
    n = node
    ids = [k.get_id() for k in ks]
    while n is not None:
        key = (id(n), tuple(ids))
        e = n.e
        ts = []
        if isinstance(e, Rng):
            ts += [K for _, K in e.binds] + list(e.guards)
            e = e.inner
        if isinstance(e, W):
            ts += [e.off, e.val]
        elif isinstance(e, Cpy):
            ts += [e.lo, e.len, e.slo]
            if e.snode is not None and e.snode is not node and node_depends(e.snode, ks):
                return True
        elif isinstance(e, Fil):
            ts += [e.lo, e.len, e.byte]
        for t in ts:
            if isinstance(t, Ptr):
                t = t.off
            if isinstance(t, tuple):
                return True
            if isz(t):
                a = atoms_in(t)
                if any(i in a for i in ids):
                    return True
        n = n.up
    return False


def rng_val(self, st, e, sub, r, size, ty, cond):
    inner = e.inner
    if isinstance(inner, W):
        v = touch(self, st, subst(inner.val, sub))
        fs = [subst(f, sub) for f in e.facts]
        if fs and isz(v) or isinstance(v, Ptr):
            add_facts(self, st, cond, fs)
        if isinstance(r, int):
            if r == 0 and size == inner.size:
                return conv(self, st, v, inner.ty, ty)
            return sub_bytes(self, st, v, inner.ty, inner.size, r, size, ty)
        out = None
        for c in range(inner.size):
            b = sub_bytes(self, st, v, inner.ty, inner.size, c, 1, ty)
            out = b if out is None else Ite(eq(r, c), b, out)
        return out
    fs = [subst(f, sub) for f in e.facts]
    add_facts(self, st, cond, fs)
    if isinstance(inner, Fil):
        return region_val(self, st, Fil(0, 0, subst(inner.byte, sub)), 0, size, ty)
    if node_depends(inner.snode, [k for k, _ in e.binds]):
        return read(self, st, inner.sobj, subst_node(inner.snode, sub), iadd(subst(inner.slo, sub), r), size, ty)
    return read(self, st, inner.sobj, inner.snode, iadd(subst(inner.slo, sub), r), size, ty)


def subst_entry(e, sub):
    f = lambda t: subst(t, sub)
    if isinstance(e, Rng):
        bs = [k for k, _ in e.binds]
        s2 = [(a, b) for a, b in sub if not any(a.eq(k) for k in bs)]
        f = lambda t: subst(t, s2)
        return Rng([(k, f(K)) for k, K in e.binds], subst_inner(e.inner, s2), [f(g) for g in e.guards],
                   [f(x) for x in e.facts])
    return subst_inner(e, sub)


def subst_inner(e, sub):
    f = lambda t: t if t is UNDEF else subst(t, sub)
    if isinstance(e, W):
        return W(f(e.off), e.size, f(e.val), e.ty)
    if isinstance(e, Cpy):
        return Cpy(f(e.lo), f(e.len), e.sobj,
                   subst_node(e.snode, sub) if node_depends(e.snode, [a for a, _ in sub]) else e.snode, f(e.slo))
    if isinstance(e, Fil):
        return Fil(f(e.lo), f(e.len), f(e.byte))
    raise Unsupported('substitute opaque')


def subst_node(node, sub):
    """the memory log with loop symbols replaced"""
    ents = []
    n = node
    ks = [a for a, _ in sub]
    while n is not None and node_depends(n, ks):
        ents.append(n.e)
        n = n.up
    for e in reversed(ents):
        n = Node(subst_entry(e, sub), n)
    return n


def add_facts(self, st, cond, fs):
    fs = [f for f in fs if f is not True]
    if not fs:
        return
    f = And(*fs)
    if cond is not True:
        f = z3.Implies(cond, bterm(f))
    if isinstance(f, bool):
        if f:
            return
        f = z3.BoolVal(False)
    key = ('fact', keep(f))
    if key in st.gh:
        return
    st.gh[key] = 1
    st.pc.append((f, False))


def regular_place(self, st, e, base, off):
    """the iterations that regular spacing suggests (symbolic strides), or None"""
    ss = []
    for k, K in e.binds:
        sl = split_lin(base, k)
        if sl is None or not sl[1]:
            return None
        ss.append(pterm(sl[1]))
        base = pterm(sl[0])
    if all(isinstance(s, int) for s in ss):
        return None
    num = isub(off, base)
    signs = []

    def quot(a, s):
        if isinstance(a, int) and isinstance(s, int):
            return (a // s, a % s) if s > 0 else None
        if isz(a) and not self.proves(st, le(0, a)):
            # before the first iteration: no iteration is the one
            if not getattr(self, 'nosplit', 0):
                raise Maybe(bterm(le(0, a)))
            signs.append(le(0, a))
            a = z3.If(bterm(le(0, a)), a, z3.IntVal(0))
            keep(a)
        if isinstance(s, int):
            if s <= 0:
                return None
            r = (a / s, a % s)
            keep(r[0]), keep(r[1])
            return r
        if not isz(a) or not self.proves(st, lt(0, s)):
            return None
        return self.symdiv(st, a, s, 'udiv'), self.symdiv(st, a, s, 'urem')
    # division is unique: instances of a*s + x = b*s + y, 0 <= x, y < s  =>  a = b
    if len(ss) == 1:
        # a block of the size that divides the stride: counted in such blocks
        q = None
        bl = e.inner.size if isinstance(e.inner, W) else e.inner.len
        m = self.pexact(ss[0], bl) if isz(ss[0]) and isz(bl) else None
        if m is not None and isz(m):
            d = divide(self, st, poly(num), poly(bl)) if isz(num) else None
            if d is not None and self.proves(st, And(le(0, pterm(d[1])), lt(pterm(d[1]), bl))):
                q = quot(pterm(d[0]), m)
        if q is None:
            q = quot(num, ss[0])
        if q is None:
            return None

        def lemma(ws):
            y = isub(num, imul(ws[0], ss[0]))
            return [z3.Implies(bterm(And(le(0, y), lt(y, ss[0]), *signs)), bterm(eq(ws[0], q[0])))]
        return [q[0]], lemma
    if len(ss) == 2:
        m = self.pexact(ss[0], ss[1])
        if m is not None:
            d = divide(self, st, poly(num), poly(ss[1]))
            if d is not None:
                D, rest = pterm(d[0]), pterm(d[1])
                q = quot(D, m)
                if q is not None:
                    def lemma(ws):
                        X = iadd(imul(m, ws[0]), ws[1])
                        y = isub(num, imul(X, ss[1]))
                        return [z3.Implies(bterm(And(le(0, y), lt(y, ss[1]), le(0, rest), lt(rest, ss[1]))), bterm(eq(X, D))),
                                z3.Implies(bterm(And(eq(X, D), le(0, ws[1]), lt(ws[1], m), lt(0, m), *signs)), bterm(And(eq(ws[0], q[0]), eq(ws[1], q[1]))))]
                    return list(q), lemma
    r = []
    for s in ss:
        q = quot(num, s)
        if q is None:
            return None
        r.append(q[0])
        num = q[1]
    return r, None


def match_witness(self, st, obj, e, off, size, ty):
    """last-writer skolem functions: sound for any offset function, no injectivity needed"""
    inner = e.inner
    I = z3.IntSort()
    oz = off if isz(off) else z3.IntVal(off)
    ws = getattr(e, 'wit', None) if hasattr(e, 'wit') else None
    key = ('wit', id(e))
    fs = self.gw.get(key) if hasattr(self, 'gw') else None
    if not hasattr(self, 'gw'):
        self.gw = {}
    fs = self.gw.get(key)
    if fs is None:
        self.fresh_n += 1
        fs = ([z3.Function('wit!%d!%d' % (self.fresh_n, i), I, I) for i in range(len(e.binds))],
              z3.Function('hit!%d' % self.fresh_n, I, z3.BoolSort()), e)
        self.gw[key] = fs
        if not hasattr(self, 'hitreg'):
            self.hitreg = {}
        self.hitreg[fs[1].name()] = (e, size, ty, obj, fs[0])
    wf, hit, _ = fs
    ws = [f(oz) for f in wf]
    for w in ws:
        keep(w)
    sub = [(k, w) for (k, K), w in zip(e.binds, ws)]

    def inrange(sub):
        cs = []
        for (k, K), (_, t) in zip(e.binds, sub):
            cs += [le(0, t), lt(t, subst(K, sub))]
        cs += [subst(g, sub) for g in e.guards]
        return cs
    h = hit(oz)
    keep(h)
    if isinstance(inner, W):
        if inner.size != size:
            # partial overlaps must be impossible
            raise NeedBytes() if inner.size < size else Unsupported('witness read of a different width')
        at = eq(subst(inner.off, sub), off)
        r = 0
        # alignment: either equal or disjoint
        d = padd(poly(off), poly(inner.off), -1)
        if pdivc(d, size) is None:
            kk = [(k, self.fresh(st, 'kk', I)) for k, _ in e.binds]
            D = isub(off, subst(inner.off, kk))
            if not self.proves(st, Or(Not(And(*inrange(kk))), eq(D, 0), le(size, D), le(D, -size)), 800):
                raise NeedBytes()
        hitf = lambda s: eq(subst(inner.off, s), off)
    else:
        r = isub(off, subst(inner.lo, sub))
        at = And(le(0, r), le(iadd(r, size), subst(inner.len, sub)))
        if size > 1:
            kk = [(k, self.fresh(st, 'kk', I)) for k, _ in e.binds]
            D = isub(off, subst(inner.lo, kk))
            L = subst(inner.len, kk)
            if not self.proves(st, Or(Not(And(*inrange(kk))), And(le(0, D), le(iadd(D, size), L)), le(iadd(D, size), 0), le(L, D)), 800):
                raise NeedBytes()
        hitf = lambda s: And(le(0, isub(off, subst(inner.lo, s))),
                             le(iadd(isub(off, subst(inner.lo, s)), size), subst(inner.len, s)))
    add_facts(self, st, True, [z3.Implies(h, bterm(And(at, *inrange(sub))))])
    # completeness at the hint indices
    hints = st.gh.get('hints', ())
    if len(e.binds) == 1:
        combos = [[x] for x in hints]
    else:
        import itertools
        combos = list(itertools.product(hints, repeat=len(e.binds))) if len(hints) <= 6 else []

    def complete(combos):
        for cb in combos:
            s2 = [(k, t) for (k, K), t in zip(e.binds, cb)]
            cond = And(*(inrange(s2) + [hitf(s2)]))
            if cond is False:
                continue
            if len(e.binds) == 1:
                concl = And(h, le(cb[0], ws[0]))
            else:
                concl = h
            add_facts(self, st, True, [z3.Implies(bterm(cond), bterm(concl))])
    complete(combos)
    c = decide(self, st, h)
    if c is not True and c is not False and self.opts.get('place'):
        g = regular_place(self, st, e, inner.off if isinstance(inner, W) else inner.lo, off)
        if g is not None:
            for lf in st.gh.get('loopfacts', ()):
                for t in g[0]:
                    self.instantiate(st, lf, t)
            if g[1]:
                add_facts(self, st, True, g[1](ws))
            complete([g[0]])
            c = decide(self, st, h)
    if c is False:
        return None
    return c, rng_val(self, st, e, sub, r, size, ty, h)


# ----------------------------------------------------------------- initial content
def init_read(self, st, obj, off, size, ty):
    if isinstance(obj.init, tuple) and obj.init[0] == 'ginit':
        return ginit_read(self, st, obj, off, size, ty)
    if obj.init is None and obj.gran is None:
        if obj.name.startswith('g:'):
            raise Unsupported('contents of external global ' + obj.name)
        return UNDEF
    if callable(obj.init):
        return obj.init(self, st, obj, off, size, ty)
    return uf_read(self, st, obj, 'in!%s!%d' % (obj.name, obj.id), off, size, ty)


def uf_read(self, st, o, name, off, size, ty):
    """contents given by an uninterpreted function of the element index"""
    if ty.k == 'ptr':
        raise Unsupported('pointer read from unknown contents of ' + name)
    if o.gran is None:
        o.gran = size
        o.kind = 'float' if ty.k in ('float', 'double') else 'int'
    g = o.gran
    p = poly(off)
    res = p.get((), 0) % g
    q = pdivc(padd(p, {(): res} if res else {}, -1), g)
    if q is None:
        if g == 1:
            q, res = p, 0
        else:
            t = off / g
            keep(t)
            r = isub(off, imul(t, g))
            found = None
            for c in range(0, g):
                if c % min(size, g) == 0 and self.proves(st, eq(r, c)):
                    found = c
                    break
            if found is None:
                if size > 1:
                    raise NeedBytes()
                v = None
                for c in range(g):
                    b = sub_bytes(self, st, uf_app(self, st, o, name, t), int_ty(8 * g) if o.kind == 'int' else (F32 if g == 4 else F64), g, c, 1, I8)
                    v = b if v is None else Ite(eq(r, c), b, v)
                return conv(self, st, v, I8, ty)
            q, res = poly(t), found
    ix = pterm(q)
    ety = int_ty(8 * g) if o.kind == 'int' else (F32 if g == 4 else F64)
    if res + size > g:
        if g == 1 or (res == 0 and size % g == 0):
            raise NeedBytes()
        raise NeedBytes()
    v = uf_app(self, st, o, name, ix)
    if res == 0 and size == g:
        return conv(self, st, v, ety, ty)
    return sub_bytes(self, st, v, ety, g, res, size, ty)


def uf_app(self, st, o, name, ix):
    g = o.gran
    I = z3.IntSort()
    n = 8 * g
    ks = getattr(o, 'kst', ())
    dom = [I] * (len(ks) + 1)
    args = [k if isz(k) else z3.IntVal(k) for k in ks] + [ix if isz(ix) else z3.IntVal(ix)]
    if not ks:
        self.ufobj[name] = o
    if o.kind == 'int' and self.mode == 'int':
        f = self.uf(name, *dom, I)
        self.ufbits[name] = n
        t = f(*args)
        keep(t)
        self.arng[t.get_id()] = (0, (1 << n) - 1)
        key = ('ufr', t.get_id())
        if key not in st.gh:
            st.gh[key] = 1
            st.pc.append((z3.And(t >= 0, t < (1 << n)), False))
        hook = getattr(o, 'elemfact', None)
        if hook:
            hook(self, st, t, ix)
        return t
    f = self.uf(name, *dom, z3.BitVecSort(n))
    t = f(*args)
    keep(t)
    return t


def ginit_read(self, st, obj, off, size, ty):
    _, t, init = obj.init
    if isinstance(off, int):
        try:
            return leaf(self, st, t, init, off, size, ty)
        except NeedBytes:
            bs = [leaf(self, st, t, init, off + i, 1, I8) for i in range(size)]
            return from_bytes(self, st, bs, ty)
    # symbolic index into a constant table
    n = size_of(t) // size
    if ty.k == 'ptr' or n > 4096 or pdivc(poly(off), size) is None:
        raise Unsupported('symbolic read of ' + obj.name)
    v = None
    for i in range(n):
        x = leaf(self, st, t, init, i * size, size, ty)
        v = x if v is None else Ite(eq(off, i * size), x, v)
    if isz(v):
        keep(v)
    return v


def leaf(self, st, t, op, off, size, ty):
    while True:
        if op[0] == 'zero':
            return self.zero(ty)
        if op[0] == 'undef':
            return UNDEF
        if op[0] == 'str':
            b = op[1][off:off + size]
            v = int.from_bytes(b, 'little')
            return conv(self, st, v, int_ty(8 * size), ty)
        if t.k == 'struct':
            for i, e in enumerate(t.el):
                fo = field_off(t, i)
                if fo <= off < fo + size_of(e):
                    t, op, off = e, op[2][i][1], off - fo
                    break
            else:
                return self.zero(ty)
            continue
        if t.k in ('arr', 'vec'):
            es = size_of(t.el)
            i = off // es
            t, op, off = t.el, op[2][i][1], off - i * es
            continue
        v = self.const(st, op, t)
        sz = size_of(t)
        if off == 0 and sz == size:
            if t.k == 'int' and t.n == 1:
                v = int(v)
            return conv(self, st, v, t, ty)
        if off + size <= sz:
            return sub_bytes(self, st, v, t, sz, off, size, ty)
        raise NeedBytes()


def alloc(self, st, name, size, gran=None, kind=None, init=None):
    o = Obj(name, size, gran, kind, init)
    st.mem[o.id] = None
    if st.kst:
        o.kst = tuple(st.kst) if (gran is not None) else ()
    return o


Obj.kst = ()
