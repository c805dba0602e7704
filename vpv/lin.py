"""linear abstraction of the path condition

Products of terms are replaced by fresh integers; what is known of them is added
as explicit instances (an inequality of the path condition times a non-negative
term).  An abstraction that is unsatisfiable has no model, so neither has the
path condition: the answer 'unsat' is sound, and quick, and does not depend on
how far a non-linear solver gets in the time it is given."""
import z3
from sx import poly, KEEP, keep, padd, pmul, isz, pconst

ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)
RLIMIT = 3000000


class Info:
    __slots__ = ('t', 'monos', 'ineqs')


class Lin:
    def __init__(self, x):
        self.x = x
        self.s = z3.Solver()
        self.tr = {}            # term id -> translated
        self.inf = {}           # term id -> Info
        self.mono = {}          # monomial -> constant
        self.stk = []           # (pc term, monos added, ineqs added)
        self.M = {}             # monomial -> count
        self.P = []             # inequalities p >= 0 of the path condition
        self.Pk = set()
        self.prod = {}
        self.nfp = 0
        self.cur = None

    # ---- translation
    def T(self, t):
        i = t.get_id()
        r = self.tr.get(i)
        if r is None:
            KEEP[i] = t
            r = self.tr[i] = self.T1(t)
        return r

    def T1(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            return t
        k = t.decl().kind()
        if z3.is_int(t) and k in ARITH:
            return self.P2T(poly(t))
        srt = t.sort().kind()
        if z3.is_bool(t):
            a0 = t.arg(0)
            if a0.sort().kind() == z3.Z3_FLOATING_POINT_SORT:
                return z3.Bool('fp!%d' % t.get_id())
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(a0):
                d = self.P2T(padd(poly(t.arg(0)), poly(t.arg(1)), -1))
                return {z3.Z3_OP_LE: lambda: d <= 0, z3.Z3_OP_LT: lambda: d < 0, z3.Z3_OP_GE: lambda: d >= 0,
                        z3.Z3_OP_GT: lambda: d > 0, z3.Z3_OP_EQ: lambda: d == 0}[k]()
        if srt == z3.Z3_FLOATING_POINT_SORT:
            return z3.Const('fpt!%d' % t.get_id(), t.sort())
        if t.sort().kind() == z3.Z3_BV_SORT and any(c.sort().kind() == z3.Z3_FLOATING_POINT_SORT for c in t.children()):
            return z3.BitVec('fpb!%d' % t.get_id(), t.size())
        ch = [self.T(c) for c in t.children()]
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
            return z3.Int('nd!%d' % t.get_id())
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        return t.decl()(*ch)

    def P2T(self, p):
        parts = []
        for m, c in p.items():
            if m == ():
                parts.append(z3.IntVal(c))
                continue
            v = self.T(KEEP[m[0]]) if len(m) == 1 else self.mv(m)
            parts.append(v if c == 1 else z3.IntVal(c) * v)
        if not parts:
            return z3.IntVal(0)
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def mv(self, m):
        v = self.mono.get(m)
        if v is None:
            v = self.mono[m] = z3.Int('m!' + '!'.join(map(str, m)))
            for a in m:
                self.T(KEEP[a])
        return v

    # ---- what a term contributes
    def info(self, t):
        i = t.get_id()
        r = self.inf.get(i)
        if r is not None:
            return r
        KEEP[i] = t
        r = Info()
        r.t = t
        ms = set()
        seen = set()
        work = [t]
        while work:
            u = work.pop()
            if u.get_id() in seen or not z3.is_app(u):
                continue
            seen.add(u.get_id())
            if z3.is_int(u) and u.num_args() and u.decl().kind() in ARITH:
                for m in poly(u):
                    if len(m) > 1:
                        ms.add(m)
                    for a in m:
                        work.append(KEEP[a])
                continue
            if z3.is_bool(u) and u.num_args() == 2 and z3.is_int(u.arg(0)) and u.decl().kind() in (
                    z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                for m in padd(poly(u.arg(0)), poly(u.arg(1)), -1):
                    if len(m) > 1:
                        ms.add(m)
                    for a in m:
                        work.append(KEEP[a])
                continue
            work.extend(u.children())
        r.monos = ms
        r.ineqs = list(self.ineqs(t))
        self.inf[i] = r
        return r

    def ineqs(self, t, pos=True, g=None):
        """(polynomial p, guard) with p >= 0 whenever t and the guard"""
        for p in self.ineqs1(t, pos, g):
            yield p if isinstance(p, tuple) else (p, g)

    def ineqs1(self, t, pos, g):
        if not z3.is_app(t) or not z3.is_bool(t):
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            yield from self.ineqs(t.arg(0), not pos, g)
            return
        if (k == z3.Z3_OP_AND and pos) or (k == z3.Z3_OP_OR and not pos):
            for c in t.children():
                yield from self.ineqs(c, pos, g)
            return
        if k == z3.Z3_OP_IMPLIES and pos:
            h = self.T(t.arg(0))
            yield from self.ineqs(t.arg(1), True, h if g is None else z3.And(g, h))
            return
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(t.arg(0)):
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                d = padd(poly(t.arg(0)), poly(t.arg(1)), -1)
                k = {z3.Z3_OP_GE: 0, z3.Z3_OP_GT: 1, z3.Z3_OP_EQ: 2}[k]
            else:
                d = padd(poly(t.arg(1)), poly(t.arg(0)), -1)
                k = {z3.Z3_OP_LE: 0, z3.Z3_OP_LT: 1}[k]
            if k == 2:
                if pos:
                    yield d
                    yield {m: -c for m, c in d.items()}
                return
            if pos:
                yield padd(d, {(): -1}) if k else d
            else:
                # not (d >= 0): -d-1 >= 0 ; not (d > 0): -d >= 0
                n = {m: -c for m, c in d.items()}
                yield n if k else padd(n, {(): -1})

    def nonneg(self, a):
        lo, _ = self.x.ival(KEEP[a])
        return lo is not None and lo >= 0

    def key(self, p):
        return tuple(sorted(p.items()))

    def lemmas(self, P, atoms, M, need):
        """products p*v >= 0 whose monomials all matter, at least one of them in need"""
        out = []
        for p, g, pk in P:
            if len(p) > 8:
                continue
            for a in atoms:
                key = (pk[0], a)
                q = self.prod.get(key)
                if q is None:
                    q = self.prod[key] = [pmul(p, {(a,): 1}), None, None]
                    q[1] = [m for m in q[0] if len(m) > 1]
                if not q[1]:
                    continue
                if not any(m in need for m in q[1]):
                    continue
                if all(m in M for m in q[1]):
                    if q[2] is None:
                        q[2] = self.P2T(q[0]) >= 0
                    out.append(q[2] if g is None else z3.Implies(g, q[2]))
        return out

    def mono_signs(self, ms):
        out = []
        for m in ms:
            if all(self.nonneg(a) for a in m):
                v = self.mv(m)
                out.append(v >= 0)
                if len(m) == 2:
                    x, y = (self.T(KEEP[a]) for a in m)
                    out.append(z3.Implies(z3.Or(x == 0, y == 0), v == 0))
                    out.append(z3.Implies(x >= 1, v >= y))
                    out.append(z3.Implies(y >= 1, v >= x))
        return out

    # ---- the stack mirrors the path condition
    def sync(self, pc):
        i = 0
        n = min(len(self.stk), len(pc))
        while i < n and self.stk[i][0] is pc[i][0]:
            i += 1
        d = len(self.stk) - i
        if d:
            self.s.pop(d)
            for t, ms, nP in reversed(self.stk[i:]):
                for m in ms:
                    del self.M[m]
                for p, g, k in self.P[nP:]:
                    self.Pk.discard(k)
                del self.P[nP:]
            del self.stk[i:]
        for t, _ in pc[i:]:
            self.s.push()
            nP = len(self.P)
            ms = ()
            if isz(t):
                self.s.add(self.T(t))
                inf = self.info(t)
                ms = [m for m in inf.monos if m not in self.M]
                newP = []
                for p, g in inf.ineqs:
                    if len(p) < 2 or len(p) > 8 or any(len(m) > 3 for m in p):
                        continue
                    k = (self.key(p), None if g is None else keep(g))
                    if k in self.Pk or (k[0], None) in self.Pk:
                        continue
                    self.Pk.add(k)
                    newP.append((p, g, k))
                for m in ms:
                    self.M[m] = 1
                if ms:
                    self.s.add(*self.mono_signs(ms))
                at = self.factors(self.M)
                l = []
                if newP and self.M:
                    l += self.lemmas(newP, at, self.M, self.M)
                if ms:
                    l += self.lemmas(self.P, at, self.M, set(ms))
                if l:
                    self.s.add(*l)
                self.P += newP
            elif t is False:
                self.s.add(z3.BoolVal(False))
            self.stk.append((t, ms, nP))

    def factors(self, M):
        at = set()
        for m in M:
            at.update(m)
        return [a for a in at if self.nonneg(a)]

    def check(self, pc, extra, timeout):
        """'unsat', 'sat' (only when nothing was abstracted) or 'unknown'"""
        self.sync(pc)
        s = self.s
        s.push()
        try:
            inf = self.info(extra)
            s.add(self.T(extra))
            ms = {m for m in inf.monos if m not in self.M}
            newP = [(p, g, (self.key(p), None)) for p, g in inf.ineqs if 2 <= len(p) <= 8]
            if ms or newP:
                M = self.M
                if ms:
                    M = dict(self.M)
                    for m in ms:
                        M[m] = 1
                    s.add(*self.mono_signs(ms))
                at = self.factors(M)
                l = []
                if M:
                    l += self.lemmas(newP, at, M, M)
                if ms:
                    l += self.lemmas(self.P, at, M, ms)
                if l:
                    s.add(*l)
            s.set('timeout', timeout)
            s.set('rlimit', RLIMIT)
            r = str(s.check())
            if r == 'sat' and (self.M or ms):
                r = 'unknown'
        except z3.Z3Exception:
            r = 'unknown'
        finally:
            s.pop()
        return r
