"""control flow: instructions, calls, loops"""
import re
import z3
from sx import *
import sx
import mem
import ir
from mem import Maybe, push, split_lin
from ir import loops_of, I64, I8, PTR, size_of


class SymExit(Exception):
    """a loop under trial unrolling has an undecided exit"""


class Stop:
    __slots__ = ('depth', 'loop', 'probe')

    def __init__(self, depth, loop=None, probe=False):
        self.depth, self.loop, self.probe = depth, loop, probe


class Engine(Exe):

    # ---------------------------------------------------------- running
    def call_fn(self, st, name, args, ret=None, cont=None):
        f = self.func(name)
        fr = Frame(f)
        f.blocks
        if f.params is None:
            f.module.sig(f)
        for (t, nm), v in zip(f.params, args):
            fr.regs[nm] = v
        fr.ret = ret
        fr.cont = cont
        fr.bb = f.entry
        self.used_fns[name] = self.used_fns.get(name, 0) + 1
        st.frames.append(fr)
        if len(st.frames) > 120:
            raise Unsupported('recursion ' + name)

    def run(self, st, stop):
        """-> list of (state, why) with why in latch/exit/ret; other endings are dropped"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            nxt = self.advance(s, stop, out)
            if nxt:
                work.extend(reversed(nxt))
            if len(work) + len(out) > self.opts.get('max_paths', 4000):
                raise Unsupported('too many paths')
        return out

    def advance(self, s, stop, out):
        """run one state up to its next fork or stop"""
        while True:
            if stop.loop is None and len(s.frames) < stop.depth:
                out.append((s, 'ret'))
                return None
            fr = s.frames[-1]
            b = fr.fn.blocks[fr.bb]
            if fr.pc >= len(b.ins):
                raise Unsupported('fell off block')
            ins = b.ins[fr.pc]
            fr.pc += 1
            self.nins = getattr(self, 'nins', 0) + 1
            if self.nins % 5000 == 0 and time.time() - self.t0 > self.budget:
                raise Budget('time budget of %ds used up' % self.budget)
            try:
                r = self.step(s, fr, ins, stop, out)
            except Maybe as m:
                if stop.loop is not None and not stop.probe and s.kst and isz(s.kst[-1]) and s.kst[-1].get_id() not in atoms_in(m.cond):
                    raise            # does not change in the loop: decided before it
                # fork on the undecided condition and redo the instruction
                if not s.frames or s.frames[-1] is not fr:
                    raise Unsupported('undecided condition half way through an instruction')
                fr.pc -= 1
                a = s
                b2 = s.clone()
                self.assume(a, m.cond, True)
                self.assume(b2, Not(m.cond), True)
                return [x for x in (a, b2) if self.feasible(x)]
            if r is None:
                continue
            if r is END:
                return None
            return r

    def feasible(self, s):
        return self.check(s, True, 500) != 'unsat'

    def fork(self, s, c):
        """-> (state where c, state where not c), None for an infeasible one"""
        if isinstance(c, bool):
            return (s, None) if c else (None, s)
        q = self.quick(c)
        if q is True:
            return s, None
        t = self.check(s, c, 500) != 'unsat'
        if not t:
            f = True
        else:
            f = self.check(s, z3.Not(c), 500) != 'unsat'
        if t and f:
            s2 = s.clone()
            s.pc.append((c, True))
            nc = z3.Not(c)
            s2.pc.append((nc, True))
            return s, s2
        if t:
            return s, None
        return None, s

    # ---------------------------------------------------------- edges
    def take(self, s, target, stop, out):
        fr = s.frames[-1]
        frm = fr.bb
        if stop.loop is not None and len(s.frames) == stop.depth:
            if target == stop.loop.header:
                s.edge = (frm, target)
                out.append((s, 'latch'))
                return END
            if target not in stop.loop.blocks:
                s.edge = (frm, target)
                out.append((s, 'exit'))
                return END
        L = loops_of(fr.fn).get(target)
        if L is not None:
            if frm in L.blocks:
                raise Unsupported('back edge outside loop handling')
            try:
                exits = self.loop(s, L, frm)
            except Maybe as m:
                if stop.loop is not None and not stop.probe and s.kst and isz(s.kst[-1]) and s.kst[-1].get_id() not in atoms_in(m.cond):
                    raise
                b2 = s.clone()
                self.assume(s, m.cond, True)
                self.assume(b2, Not(m.cond), True)
                nxt = []
                for x in (s, b2):
                    if not self.feasible(x):
                        continue
                    r = self.take(x, target, stop, out)
                    if r is None:
                        nxt.append(x)
                    elif r is not END:
                        nxt.extend(r)
                return nxt if nxt else END
            nxt = []
            for e in exits:
                fr2 = e.frames[-1]
                fr2.bb = e.edge[0]
                r = self.take(e, e.edge[1], stop, out)
                if r is None:
                    nxt.append(e)
                elif r is not END:
                    nxt.extend(r)
            return nxt if nxt else END
        self.enter(s, frm, target)
        return None

    def enter(self, s, frm, target):
        fr = s.frames[-1]
        b = fr.fn.blocks[target]
        vals = []
        for p in b.phis:
            for o, blk in p.a:
                if blk == frm:
                    vals.append((p.dst, self.val(s, o, p.ty)))
                    break
            else:
                raise Unsupported('phi without edge')
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = frm
        fr.bb = target
        fr.pc = 0

    # ---------------------------------------------------------- one instruction
    def step(self, s, fr, ins, stop, out):
        op = ins.op
        R = fr.regs
        if op == 'load':
            R[ins.dst] = mem.load(self, s, self.val(s, ins.a[0], PTR), ins.ty, self.where(fr, ins))
            return
        if op == 'store':
            mem.store(self, s, self.val(s, ins.a[1], PTR), self.val(s, ins.a[0], ins.ty), ins.ty, self.where(fr, ins))
            return
        if op == 'getelementptr':
            t, idx = ins.x
            R[ins.dst] = self.gep(s, self.val(s, ins.a[0], PTR), t, [(it, self.val(s, io, it)) for it, io in idx])
            return
        if op == 'alloca':
            n = self.val(s, ins.a[0], I64)
            if not isinstance(n, int):
                raise Unsupported('dynamic alloca')
            o = mem.alloc(self, s, 'alloca:' + fr.fn.name[:40] + ':' + ins.dst, size_of(ins.x) * n)
            fr.allocas.append(o.id)
            R[ins.dst] = Ptr(o, 0)
            return
        if op == 'call':
            return self.do_call(s, fr, ins, stop, out)
        if op == 'br':
            c = self.val(s, ins.a[0], ir.I1)
            if c is UNDEF:
                c = self.fresh(s, 'undef', z3.BoolSort())
            c = self.tobool(c)
            if ins.a[1] == ins.a[2]:
                return self.take(s, ins.a[1], stop, out)
            depth = len(s.frames)
            a, b = self.fork(s, c)
            if a is not None and b is not None:
                L = stop.loop
                if L is not None and stop.probe and depth == stop.depth and (
                        ins.a[1] not in L.blocks or ins.a[2] not in L.blocks):
                    raise SymExit()
                if L is not None and depth == stop.depth and (
                        ins.a[1] not in L.blocks or ins.a[2] not in L.blocks):
                    self.exitconds.append(c)
                nxt = []
                for x, t in ((a, ins.a[1]), (b, ins.a[2])):
                    r = self.take(x, t, stop, out)
                    if r is None:
                        nxt.append(x)
                    elif r is not END:
                        nxt.extend(r)
                return nxt if nxt else END
            return self.take(a or b, ins.a[1] if a is not None else ins.a[2], stop, out)
        if op == 'jmp':
            return self.take(s, ins.a[0], stop, out)
        if op == 'ret':
            v = self.val(s, ins.a[0], ins.ty) if ins.a else None
            return self.do_ret(s, v, stop, out)
        if op == 'switch':
            v = self.val(s, ins.a[0], ins.ty)
            if isinstance(v, int) or isinstance(v, bool):
                M = (1 << ins.ty.n) - 1
                for c, t in ins.a[2]:
                    if (c & M) == (int(v) & M):
                        return self.take(s, t, stop, out)
                return self.take(s, ins.a[1], stop, out)
            nxt = []
            cur = s
            for c, t in ins.a[2]:
                if self.mode == 'bv':
                    cond = v == (c & ((1 << ins.ty.n) - 1))
                else:
                    cond = self.icmp(cur, 'eq', v, c & ((1 << ins.ty.n) - 1), ins.ty.n)
                a, b = self.fork(cur, cond)
                if a is not None:
                    L = stop.loop
                    r = self.take(a, t, stop, out)
                    if r is None:
                        nxt.append(a)
                    elif r is not END:
                        nxt.extend(r)
                cur = b
                if cur is None:
                    break
            if cur is not None:
                r = self.take(cur, ins.a[1], stop, out)
                if r is None:
                    nxt.append(cur)
                elif r is not END:
                    nxt.extend(r)
            return nxt if nxt else END
        if op == 'select':
            c = self.val(s, ins.a[0], ins.x)
            if c is UNDEF:
                c = self.fresh(s, 'undef', z3.BoolSort())
            c = self.tobool(c)
            x, y = self.val(s, ins.a[1], ins.ty), self.val(s, ins.a[2], ins.ty)
            if isinstance(c, bool):
                R[ins.dst] = x if c else y
                return
            if x is UNDEF:
                x = y
            if y is UNDEF:
                y = x
            if ins.ty.k == 'ptr':
                if x is y or (x.obj is y.obj):
                    R[ins.dst] = Ptr(x.obj, Ite(c, x.off, y.off))
                    return
                d = mem.decide(self, s, c)
                if isinstance(d, bool):
                    R[ins.dst] = x if d else y
                    return
                raise Maybe(c)
            if ins.ty.k == 'struct':
                raise Maybe(c)
            if ins.ty.k == 'int' and ins.ty.n == 1:
                R[ins.dst] = Ite(c, self.tobool(x), self.tobool(y))
                return
            d = mem.decide(self, s, c)
            if isinstance(d, bool):
                R[ins.dst] = x if d else y
                return
            if ins.ty.k == 'int' and self.mode == 'int':
                x, y = self.U(s, x, ins.ty.n), self.U(s, y, ins.ty.n)
            elif ins.ty.k == 'int':
                x = x if isz(x) else z3.BitVecVal(x, ins.ty.n)
                y = y if isz(y) else z3.BitVecVal(y, ins.ty.n)
            v = Ite(c, x, y)
            if isz(v):
                keep(v)
            R[ins.dst] = v
            return
        if op == 'icmp':
            R[ins.dst] = self.do_icmp(s, ins.x, self.val(s, ins.a[0], ins.ty), self.val(s, ins.a[1], ins.ty), ins.ty)
            return
        if op == 'fcmp':
            R[ins.dst] = self.fcmp(s, ins.x, self.val(s, ins.a[0], ins.ty), self.val(s, ins.a[1], ins.ty), ins.ty)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            R[ins.dst] = self.fbin(s, op, self.val(s, ins.a[0], ins.ty), self.val(s, ins.a[1], ins.ty), ins.ty)
            return
        if op == 'fneg':
            v = self.val(s, ins.a[0], ins.ty)
            n = self.FB[ins.ty.k]
            R[ins.dst] = z3.simplify(v ^ (1 << (n - 1)))
            return
        if op in ir.BIN:
            a, b = self.val(s, ins.a[0], ins.ty), self.val(s, ins.a[1], ins.ty)
            if ins.ty.k != 'int':
                raise Unsupported('vector op')
            if a is UNDEF:
                a = self.fresh_val(s, 'undef', ins.ty)
            if b is UNDEF:
                b = self.fresh_val(s, 'undef', ins.ty)
            if self.mode == 'bv':
                R[ins.dst] = self.binop_bv(s, op, a, b, ins.ty.n, ins.x, ins)
            else:
                R[ins.dst] = self.binop_int(s, op, a, b, ins.ty.n, ins.x, ins)
            return
        if op in ir.CAST:
            R[ins.dst] = self.cast(s, op, self.val(s, ins.a[0], ins.x), ins.x, ins.ty)
            return
        if op == 'freeze':
            v = self.val(s, ins.a[0], ins.ty)
            R[ins.dst] = self.fresh_val(s, 'frz', ins.ty) if v is UNDEF else v
            return
        if op == 'extractvalue':
            v = self.val(s, ins.a[0], ins.ty)
            for i in ins.x:
                v = v[i] if v is not UNDEF else UNDEF
            R[ins.dst] = v
            return
        if op == 'insertvalue':
            v = self.val(s, ins.a[0], ins.ty)
            x = self.val(s, ins.a[1])if ins.a[1][0] == 'reg' else self.const(s, ins.a[1], None)
            R[ins.dst] = self.insval(v, ins.ty, ins.x, x)
            return
        if op == 'unreachable':
            self.ended['unreach'] += 1
            if self.opts.get('unreach_ok', True) is False:
                self.oblige(s, False, 'unreachable', 'unreachable code', fr.fn.name)
            return END
        if op == 'atomicrmw':
            p = self.val(s, ins.a[0], PTR)
            old = mem.load(self, s, p, ins.ty)
            v = self.val(s, ins.a[1], ins.ty)
            if ins.x in ('add', 'sub'):
                new = self.binop_int(s, ins.x, old, v, ins.ty.n, (), ins) if self.mode == 'int' else self.binop_bv(
                    s, ins.x, old, v, ins.ty.n, (), ins)
            elif ins.x == 'xchg':
                new = v
            else:
                raise Unsupported('atomicrmw ' + ins.x)
            mem.store(self, s, p, new, ins.ty)
            R[ins.dst] = old
            return
        if op == 'fence':
            return
        if op in ('landingpad', 'resume'):
            return END
        raise Unsupported('instruction ' + ins.line[:120])

    def insval(self, v, ty, ix, x):
        if v is UNDEF:
            v = tuple(UNDEF for _ in (ty.el if ty.k == 'struct' else range(ty.n)))
        l = list(v)
        if len(ix) == 1:
            l[ix[0]] = x
        else:
            l[ix[0]] = self.insval(l[ix[0]], ty.el[ix[0]] if ty.k == 'struct' else ty.el, ix[1:], x)
        return tuple(l)

    def where(self, fr, ins):
        return fr.fn.name + ': ' + ins.line

    def do_icmp(self, s, pred, a, b, ty):
        if ty.k == 'ptr':
            return self.pcmp(s, pred, a, b)
        if a is UNDEF:
            a = self.fresh_val(s, 'undef', ty)
        if b is UNDEF:
            b = self.fresh_val(s, 'undef', ty)
        if self.mode == 'bv':
            return self.icmp_bv(pred, a, b, ty.n)
        return self.icmp(s, pred, a, b, ty.n)

    def pcmp(self, s, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return self.fresh(s, 'undefcmp', z3.BoolSort())
        if a.obj is b.obj:
            x, y = a.off, b.off
            if pred == 'eq':
                return eq(x, y)
            if pred == 'ne':
                return Not(eq(x, y))
            p = pred[1:]
            return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x), 'ge': lambda: le(y, x)}[p]()
        if pred in ('eq', 'ne'):
            return pred == 'ne'
        x, y = self.p2i(s, a), self.p2i(s, b)
        return self.icmp(s, pred, x, y, 64)

    def icmp_bv(self, pred, a, b, n):
        if n == 1:
            a, b = self.tobool(a), self.tobool(b)
            r = (a == b) if isinstance(a, bool) and isinstance(b, bool) else z3.simplify(bterm(a) == bterm(b))
            return Not(r) if pred == 'ne' else r
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << n) - 1
            a, b = a & M, b & M
            if pred[0] == 's':
                H = 1 << (n - 1)
                a, b = (a ^ H) - H, (b ^ H) - H
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        a = a if isz(a) else z3.BitVecVal(a, n)
        b = b if isz(b) else z3.BitVecVal(b, n)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def binop_bv(self, st, op, a, b, n, fl, ins):
        if n == 1:
            return self.binop_int(st, op, a, b, n, fl, ins)
        az = a if isz(a) else z3.BitVecVal(a, n)
        bz = b if isz(b) else z3.BitVecVal(b, n)
        if 'nsw' in fl and self.opts.get('overflow', True) and op in ('add', 'sub', 'mul') and (isz(a) or isz(b)):
            w = 2 * n
            ea, eb = z3.SignExt(n, az), z3.SignExt(n, bz)
            r = {'add': ea + eb, 'sub': ea - eb, 'mul': ea * eb}[op]
            self.oblige(st, z3.SignExt(n, z3.Extract(n - 1, 0, r)) == r, 'overflow', 'signed %s' % op, ins.line)
        if op in ('shl', 'lshr', 'ashr'):
            ok = z3.simplify(z3.ULT(bz, n))
            ok = True if z3.is_true(ok) else False if z3.is_false(ok) else ok
            self.oblige(st, ok, 'shift', 'shift amount below the width', ins.line if ins else '')
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            ok = z3.simplify(bz != 0)
            ok = True if z3.is_true(ok) else False if z3.is_false(ok) else ok
            self.oblige(st, ok, 'div0', 'division by zero', ins.line if ins else '')
        f = {'add': lambda: az + bz, 'sub': lambda: az - bz, 'mul': lambda: az * bz, 'and': lambda: az & bz,
             'or': lambda: az | bz, 'xor': lambda: az ^ bz, 'shl': lambda: az << bz, 'lshr': lambda: z3.LShR(az, bz),
             'ashr': lambda: az >> bz, 'udiv': lambda: z3.UDiv(az, bz), 'urem': lambda: z3.URem(az, bz),
             'sdiv': lambda: az / bz, 'srem': lambda: z3.SRem(az, bz)}[op]
        r = z3.simplify(f())
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    # ---------------------------------------------------------- calls
    def do_ret(self, s, v, stop, out):
        fr = s.frames.pop()
        for i in fr.allocas:
            s.dead[i] = True
        if fr.cont is not None:
            r = fr.cont(self, s, v)
            if r is END:
                return END
            if isinstance(r, list):
                return r
            return None
        if s.frames and fr.ret:
            dst, normal = fr.ret
            cal = s.frames[-1]
            if dst is not None:
                cal.regs[dst] = v
            if normal is not None:
                return self.take(s, normal, stop, out)
        return None

    def do_call(self, s, fr, ins, stop, out):
        callee = ins.x['callee']
        normal = ins.x.get('normal')
        if callee[0] == 'glob':
            name = callee[1]
        else:
            p = self.val(s, callee, PTR)
            if p is UNDEF or p.obj is None or p.obj.fn is None:
                self.oblige(s, False, 'memory', 'call through an invalid pointer', fr.fn.name + ': ' + ins.line)
                raise Unsupported('indirect call')
            name = p.obj.fn
        args = [self.val(s, a, t) if t.k != 'metadata' else None for t, a in ins.a]
        for i, (t, a) in enumerate(ins.a):
            if t.k == 'int' and t.n == 1 and args[i] is not UNDEF:
                args[i] = self.tobool(args[i])
        return self.invoke(s, name, args, ins.ty, ins.dst, normal, stop, out, ins)

    def invoke(self, s, name, args, rty, dst, normal, stop, out, ins):
        m = self.model_for(name)
        r = OWN if m is None else m(self, s, args, ins)
        if r is not OWN:
            self.used_models[name] = self.used_models.get(name, 0) + 1
            if r is END:
                return END
            if r is PUSHED:           # the model pushed a frame with a continuation
                s.frames[-1].ret = (dst, normal)
                return None
            if isinstance(r, list):     # several outcomes
                nxt = []
                for s2, v in r:
                    if dst is not None:
                        s2.frames[-1].regs[dst] = v
                    if normal is not None:
                        q = self.take(s2, normal, stop, out)
                        if q is None:
                            nxt.append(s2)
                        elif q is not END:
                            nxt.extend(q)
                    else:
                        nxt.append(s2)
                return nxt if nxt else END
            if dst is not None:
                s.frames[-1].regs[dst] = r
            if normal is not None:
                return self.take(s, normal, stop, out)
            return None
        f = self.func(name)
        if f is None:
            raise Unsupported('call of undefined function ' + name)
        self.call_fn(s, name, args, (dst, normal))
        return None

    def model_for(self, name):
        m = self.models.get(name)
        if m is not None:
            return m
        for rx, m in self.model_rx:
            if rx.match(name):
                self.models[name] = m
                return m
        return None

    # ---------------------------------------------------------- loops
    exitconds = []

    def loop(self, s, L, frm):
        depth = len(s.frames)
        cur = [(s, frm, 0)]
        results = []
        limit = self.opts.get('unroll', 70)
        s0 = s.clone() if limit else s
        fork = self.opts.get('fork_loops', self.mode == 'bv')
        if isinstance(fork, str):
            fork = re.search(fork, s.frames[-1].fn.name) is not None
        n0 = len(self.obls)
        total = 0
        tried = False
        while cur:
            x, f, it = cur.pop()
            total += 1
            if it > limit or total > 4 * limit:
                if fork:
                    raise Unsupported('unroll limit')
                # long concrete loop: treat it symbolically from its entry
                del self.obls[n0:]
                return self.summarise(s0, L, frm)
            y = x.clone()
            self.enter(y, f, L.header)
            nob = len(self.obls)
            try:
                outs = self.run(y, Stop(depth, L, not fork))
            except SymExit:
                del self.obls[nob:]
                if it and s0 is not s and not tried and not self.opts.get('keep_peel'):
                    # undecided only now: summarise from the entry, not from here
                    tried = True
                    saved = self.obls[n0:]
                    try:
                        del self.obls[n0:]
                        return self.summarise(s0, L, frm)
                    except Unsupported:
                        self.obls[n0:] = saved
                results += self.summarise(x, L, f)
                continue
            for z, why in outs:
                if why == 'exit':
                    results.append(z)
                else:
                    cur.append((z, z.edge[0], it + 1))
        return results

    def summarise(self, s0, L, frm):
        try:
            return self.summarise1(s0, L, frm)
        except Peel:
            pass
        # run the first iteration on its own, then summarise the rest
        depth = len(s0.frames)
        y = s0.clone()
        self.enter(y, frm, L.header)
        save = self.exitconds
        self.exitconds = []
        outs = self.run(y, Stop(depth, L))
        self.exitconds = save
        res = []
        for z, why in outs:
            if why == 'exit':
                res.append(z)
            else:
                try:
                    res += self.summarise1(z, L, z.edge[0])
                except Peel as p:
                    raise Unsupported('loop: ' + str(p))
        return res

    def summarise1(self, s0, L, frm):
        fn = s0.frames[-1].fn
        depth = len(s0.frames)
        hdr = fn.blocks[L.header]
        self.loops_done += 1
        init = {}
        for p in hdr.phis:
            for o, blk in p.a:
                if blk == frm:
                    init[p.dst] = self.val(s0, o, p.ty)
        kk = self.fresh(s0, 'k', z3.IntSort())
        self.arng[kk.get_id()] = (0, None)
        pty = {p.dst: p.ty for p in hdr.phis}
        S = Summary(self, s0, L, frm, depth, init, pty, kk)
        if self.opts.get('loop_trace'):
            print('LOOP', fn.name, L.header, 'depth', depth, 'kst', s0.kst)
        # 1. close the modified set; the counters are taken not to wrap, which is checked below
        S.optimist()
        for _ in range(12):
            S.run_quiet()
            if not S.latches and S.cands:
                S.cands = []
                continue
            if not S.grow():
                break
        else:
            if self.opts.get('loop_trace'): print('NOTCLOSED', [(c[0].name, str(c[1]), c[2]) for c in S.cells.values()], [o.name for o in S.arrs.values()])
            raise Unsupported('loop: modified set does not close')
        if not S.latches:
            # the body never comes back: nothing to generalise
            return self.run_once(s0, L, frm)
        # 2. affine registers and cells
        for _ in range(6):
            if not S.affine():
                break
            S.optimist()
            S.run_quiet()
            for _ in range(6):
                if not S.grow():
                    break
                S.run_quiet()
            else:
                raise Unsupported('loop: modified set changed')
        # 3. candidate invariants (checked inductive)
        S.candidates()
        for _ in range(12):
            S.build()
            S.run_quiet()
            for _ in range(6):
                if not S.grow():
                    break
                S.run_quiet()
            else:
                raise Unsupported('loop: modified set changed')
            if S.affine():
                continue
            if S.houdini():
                continue
            break
        # 4. settle array contents
        for _ in range(3):
            S.build()
            if not S.has_opaque():
                break
            S.run_quiet()
            S.houdini()
        S.build()
        # 5. the real run: obligations are recorded, exits continue
        g = S.header_state()
        npc = len(g.pc)
        save = self.exitconds
        self.exitconds = []
        outs = self.run(g, Stop(depth, L))
        self.exitconds = save
        res = []
        for z, why in outs:
            if why == 'exit':
                z.kst = s0.kst
                res.append(z)
                S.trip_count(z, npc)
                S.finish(z)
        if self.opts.get('loop_trace'):
            print('   affine', {k: str(v) for k, v in S.step.items()}, 'cells', len(S.cells), 'arrs',
                  [(o.name) for o in S.arrs.values()], 'inv', [str(c.src) for c in S.cands], 'exits', len(res))
        return res

    def run_once(self, s0, L, frm):
        y = s0.clone()
        self.enter(y, frm, L.header)
        save = self.exitconds
        self.exitconds = []
        outs = self.run(y, Stop(len(s0.frames), L))
        self.exitconds = save
        return [z for z, why in outs if why == 'exit']


class Peel(Exception):
    pass


class Cand:
    __slots__ = ('f', 'src')

    def __init__(self, f, src):
        self.f, self.src = f, src


class Summary:
    def __init__(self, exe, s0, L, frm, depth, init, pty, k):
        self.e, self.s0, self.L, self.frm, self.depth, self.init, self.pty, self.k = exe, s0, L, frm, depth, init, pty, k
        self.mixed = set()
        self.cells = {}      # key -> (obj, off, size, ty, init value)
        self.arrs = {}       # obj id -> obj   (written at changing places)
        self.step = {}       # phi/cell key -> step term (affine)
        self.op = {}         # phi/cell key -> opaque term p(k)
        self.opq = {}        # obj id -> Opaque entry
        self.ents = {}       # obj id -> [Rng]
        self.cands = []
        self.latches = []
        self.econds = []
        self.rel = None
        self.hdr = None
        self.static_steps()

    def static_steps(self):
        """registers that the text of the loop advances by a constant"""
        fn = self.s0.frames[-1].fn
        L = self.L
        if self.e.mode != 'int':
            return
        defs = {}
        for b in L.blocks:
            for i in fn.blocks[b].ins:
                if i.dst:
                    defs[i.dst] = i
        for p in fn.blocks[L.header].phis:
            v0 = self.init.get(p.dst)
            if p.ty.k == 'ptr':
                if not isinstance(v0, Ptr) or v0.obj is None:
                    continue
            elif not (p.ty.k == 'int' and p.ty.n >= 32) or v0 is UNDEF or v0 is None:
                continue
            steps = []
            for o, blk in p.a:
                if blk not in L.blocks:
                    continue
                d = 0
                while d is not None and o != ('reg', p.dst):
                    i = defs.get(o[1]) if o[0] == 'reg' else None
                    if i is not None and p.ty.k == 'ptr' and i.op == 'getelementptr' and len(i.x[1]) == 1:
                        c = self.static_val(i.x[1][0][1], i.x[1][0][0], defs)
                        d = None if c is None else iadd(d, imul(size_of(i.x[0]), c))
                        o = i.a[0]
                    elif i is not None and p.ty.k == 'int' and i.op == 'add':
                        x, y = i.a[0], i.a[1]
                        if x[0] != 'reg' or (x[1] not in defs and x[1] != p.dst):
                            x, y = y, x
                        c = self.static_val(y, p.ty, defs)
                        d = None if c is None else iadd(d, c)
                        o = x
                    else:
                        d = None
                steps.append(d)
            if steps and None not in steps and all(x is steps[0] or (isinstance(x, int) and x == steps[0]) or
                                                   (isz(x) and isz(steps[0]) and x.eq(steps[0])) for x in steps):
                self.step[p.dst] = steps[0]

    def static_val(self, o, ty, defs):
        """a constant, or a register the loop does not set (as a signed number when small)"""
        if o[0] == 'int':
            c = o[2] & ((1 << ty.n) - 1)
            return c - (1 << ty.n) if c >> (ty.n - 1) else c
        if o[0] != 'reg' or o[1] in defs or ty.k != 'int' or any(p.dst == o[1] for b in self.L.blocks for p in self.s0.frames[-1].fn.blocks[b].phis):
            return None
        try:
            v = self.e.val(self.s0, o, ty)
        except Exception:
            return None
        if isinstance(v, bool) or not (isinstance(v, int) or isz(v)) or v is UNDEF:
            return None
        lo, hi = self.e.ival(v)
        return v if lo is not None and lo >= 0 and hi is not None and hi < 1 << 62 else None

    # ---- header state at the generic iteration k
    def value(self, key, ty, v0, st):
        e = self.e
        if key in self.step:
            stp = self.step[key]
            if isinstance(v0, Ptr):
                return Ptr(v0.obj, iadd(v0.off, imul(self.k, stp)))
            return iadd(v0, imul(self.k, stp))
        o = self.op.get(key)
        if o is None:
            sv = st.kst
            if ty.k == 'ptr':
                if not isinstance(v0, Ptr):
                    o = UNDEF
                elif v0.obj is None:
                    o = NULL          # checked in grow(): changes -> Peel
                else:
                    o = Ptr(v0.obj, e.fresh(st, 'po', z3.IntSort()))
            elif v0 is UNDEF:
                o = UNDEF
            else:
                o = e.fresh_val(st, 'p', ty)
                if isz(o) and z3.is_int(o) and ty.k == 'int':
                    pass
            self.op[key] = o
        return o

    def header_state(self):
        e = self.e
        g = self.s0.clone()
        g.kst = self.s0.kst + (self.k,)
        if ('kpos', self.k.get_id()) not in g.gh:
            g.pc.append((self.k >= 0, False))
        fr = g.frames[-1]
        for p, ty in self.pty.items():
            fr.regs[p] = self.value(p, ty, self.init[p], g)
        # arrays
        for oid, o in self.arrs.items():
            if oid in self.ents:
                for r in self.ents[oid]:
                    g.mem[oid] = Node(r, g.mem.get(oid))
            else:
                q = self.opq.get(oid)
                if q is None:
                    e.fresh_n += 1
                    q = Opaque(e.fresh_n, kst=g.kst)
                    # keep the element type of the object
                    q.gran, q.kind = o.gran, o.kind
                    self.opq[oid] = q
                g.mem[oid] = Node(q, g.mem.get(oid))
        for key, (o, off, size, ty, v0) in self.cells.items():
            v = self.value(key, ty, v0, g)
            g.mem[o.id] = Node(W(off, size, v, ty), g.mem.get(o.id))
        # opaque int registers are machine integers
        for key, o in self.op.items():
            if isz(o) and z3.is_int(o) and o.get_id() in e.arng:
                lo, hi = e.arng[o.get_id()]
                g.pc.append((z3.And(o >= lo, o <= hi), False))
        for c in self.cands:
            f = c.f(self.k)
            if f is not True:
                g.pc.append((bterm(f), False))
        if self.rel is not None:
            for f in self.rel:
                g.pc.append((f, False))
        fr.prev = self.frm
        fr.bb = self.L.header
        fr.pc = 0
        self.nhead = len(g.pc)
        self.head = g.clone()
        return g

    def run_quiet(self):
        e = self.e
        g = self.header_state()
        e.quiet += 1
        save = e.exitconds
        e.exitconds = []
        ended = dict(e.ended)
        try:
            outs = e.run(g, Stop(self.depth, self.L))
        finally:
            e.quiet -= 1
            self.econds = e.exitconds
            e.exitconds = save
            e.ended = ended
        self.latches = [z for z, why in outs if why == 'latch']

    def latch_vals(self, z):
        e = self.e
        e.nosplit = getattr(e, 'nosplit', 0) + 1
        try:
            return self.latch_vals1(z)
        finally:
            e.nosplit -= 1

    def latch_vals1(self, z):
        """values the header would see next"""
        e = self.e
        vals = {}
        frm = z.edge[0]
        fn = z.frames[-1].fn
        for p in fn.blocks[self.L.header].phis:
            for o, blk in p.a:
                if blk == frm:
                    vals[p.dst] = e.val(z, o, p.ty)
        for key, (o, off, size, ty, v0) in self.cells.items():
            if z.dead.get(o.id):
                vals[key] = UNDEF
                continue
            vals[key] = mem.read(e, z, o, z.mem.get(o.id), off, size, ty)
        return vals

    def new_entries(self, z, oid):
        """entries appended on object oid by the body, oldest first"""
        base = self.head.mem.get(oid)
        n = z.mem.get(oid)
        r = []
        while n is not base:
            if n is None:
                raise Unsupported('log rewritten')
            r.append(n.e)
            n = n.up
        return r[::-1]

    def loopsym(self, t, z=None):
        """does the term change from iteration to iteration?"""
        if isinstance(t, Ptr):
            t = t.off
        if not isz(t):
            return False
        return self.k.get_id() in atoms_in(t)

    def grow(self):
        e = self.e
        ch = False
        for z in self.latches:
            for oid in list(z.mem):
                if oid not in self.head.mem:
                    continue
                if z.dead.get(oid) and not self.s0.dead.get(oid):
                    # freed inside the loop: contents are gone
                    continue
                if z.mem.get(oid) is self.head.mem.get(oid):
                    continue
                o = self.objof(z, oid)
                for en in self.new_entries(z, oid):
                    if oid in self.arrs and not isinstance(en, W):
                        continue
                    if isinstance(en, W) and not self.loopsym(en.off):
                        key = ('c', oid, str(en.off) if isz(en.off) else en.off, en.size)
                        if key in self.cells:
                            continue
                        if oid in self.arrs and (not isinstance(en.off, int) or oid in self.mixed):
                            continue
                        # merge with overlapping cells of another width
                        bad = False
                        for k2, (o2, off2, sz2, t2, _) in self.cells.items():
                            if o2 is o and isinstance(off2, int) and isinstance(en.off, int) and \
                                    off2 < en.off + en.size and en.off < off2 + sz2:
                                bad = True
                        if bad:
                            self.mixed.add(oid)
                            if oid not in self.arrs:
                                self.arrs[oid] = o
                                ch = True
                            for k2 in [k2 for k2, c in self.cells.items() if c[0] is o]:
                                del self.cells[k2]
                            continue
                        try:
                            v0 = mem.read(e, self.s0, o, self.s0.mem.get(oid), en.off, en.size, en.ty)
                        except (Maybe, Unsupported):
                            v0 = UNDEF
                        if o.id not in self.s0.mem:
                            v0 = UNDEF
                        self.cells[key] = (o, en.off, en.size, en.ty, v0)
                        ch = True
                    else:
                        if oid not in self.arrs:
                            self.arrs[oid] = o
                            ch = True
            vals = self.latch_vals(z)
            for key, v in vals.items():
                v0 = self.init[key] if key in self.pty else self.cells[key][4]
                ty = self.pty.get(key) or self.cells[key][3]
                cur = self.op.get(key)
                if ty.k == 'ptr' and key not in self.step and isinstance(v0, Ptr) and cur is not UNDEF:
                    if isinstance(v, Ptr) and v.obj is v0.obj and (v.obj is not None or v.off == v0.off):
                        continue
                    if key in self.pty or not z.kst or True:
                        # pointer changes object across iterations
                        if key in self.pty:
                            raise Peel('pointer register changes object')
                        if v is UNDEF or (isinstance(v, Ptr) and v.obj is not None and (
                                z.dead.get(v.obj.id) or v.obj.id not in self.head.mem)):
                            if isinstance(v, Ptr) and not z.dead.get(v.obj.id):
                                raise Peel('pointer cell to an object made in the loop')
                            self.op[key] = UNDEF
                            ch = True
                            continue
                        if v0.obj is None:
                            raise Peel('pointer cell')
                        self.op[key] = UNDEF
                        ch = True
        return ch

    def objof(self, z, oid):
        n = Obj.byid[oid]
        return n

    # ---- affine registers
    def affine(self):
        if not self.latches:
            return False
        ch = False
        e = self.e
        allv = [self.latch_vals(z) for z in self.latches]
        keys = list(self.pty) + list(self.cells)
        for key in keys:
            if key in self.step:
                v0 = self.init[key] if key in self.pty else self.cells[key][4]
                continue
            cur = self.op.get(key)
            if cur is None or cur is UNDEF:
                continue
            ty = self.pty.get(key) or self.cells[key][3]
            v0 = self.init[key] if key in self.pty else self.cells[key][4]
            if v0 is UNDEF:
                continue
            if ty.k not in ('int', 'ptr') or (ty.k == 'int' and (ty.n == 1 or e.mode == 'bv')):
                # unchanged?
                if all(isz(v.get(key)) and isz(cur) and v[key].eq(cur) for v in allv) or \
                        all(isinstance(cur, bool) and v.get(key) is cur for v in allv):
                    pass
                continue
            steps = []
            for v in allv:
                x = v.get(key)
                if x is UNDEF or x is None or isinstance(x, bool):
                    break
                if isinstance(x, Ptr):
                    if not isinstance(cur, Ptr) or x.obj is not cur.obj:
                        break
                    d = isub(x.off, cur.off)
                else:
                    if isinstance(cur, Ptr):
                        break
                    d = isub(x, cur)
                    if isinstance(d, int) and ty.k == 'int':
                        d &= (1 << ty.n) - 1
                        if d >> (ty.n - 1):
                            d -= 1 << ty.n
                if self.loopsym(d):
                    # t mod 2^n == cur  etc.: try the solver for a zero step
                    break
                steps.append(d)
            else:
                if steps and all((isinstance(a, int) and isinstance(steps[0], int) and a == steps[0]) or
                                 (isz(a) and isz(steps[0]) and a.eq(steps[0])) for a in steps):
                    self.step[key] = steps[0]
                    self.op.pop(key, None)
                    ch = True
        if ch:
            self.rel = None
            self.ents = {}
        return ch

    # ---- candidate invariants
    def term_of(self, key, k):
        """value of an int register at iteration k"""
        v0 = self.init[key] if key in self.pty else self.cells[key][4]
        if key in self.step:
            t = iadd(v0.off if isinstance(v0, Ptr) else v0, imul(k, self.step[key]))
            return t
        o = self.op.get(key)
        if isinstance(o, Ptr):
            o = o.off
        if not isz(o):
            return o
        return subst(o, [(self.k, k)])

    def optimist(self):
        """steer the first passes by ranges that hold at the start; candidates() begins anew"""
        e = self.e
        self.cands = []
        if e.mode != 'int':
            return
        for key in list(self.pty) + list(self.cells):
            ty = self.pty.get(key) or self.cells[key][3]
            if key not in self.step or ty.k != 'int' or ty.n <= 1:
                continue
            n = ty.n
            for lo, hi in ((0, 1 << n), (-(1 << n - 1), 1 << n - 1)):
                def f(k, key=key, lo=lo, hi=hi):
                    return And(le(lo, self.term_of(key, k)), lt(self.term_of(key, k), hi))
                b = f(0)
                if b is True or (b is not False and e.proves(self.s0, b, 300)):
                    self.cands.append(Cand(f, 'range'))

    def candidates(self):
        e = self.e
        C = []
        self.extra = []
        for key in list(self.pty) + list(self.cells):
            ty = self.pty.get(key) or self.cells[key][3]
            if ty.k == 'int' and ty.n > 1 and e.mode == 'int':
                v0 = self.init[key] if key in self.pty else self.cells[key][4]
                if key in self.step:
                    n = ty.n
                    C.append(Cand(lambda k, key=key, n=n: And(le(0, self.term_of(key, k)), lt(self.term_of(key, k), 1 << n)),
                                  'U%d(%s)' % (n, key)))
                    C.append(Cand(lambda k, key=key, n=n: And(le(-(1 << n - 1), self.term_of(key, k)),
                                                              lt(self.term_of(key, k), 1 << n - 1)), 'S%d(%s)' % (n, key)))
                elif isz(self.op.get(key)):
                    u0 = e.U(self.s0, v0, ty.n) if v0 is not UNDEF else None
                    if u0 is not None:
                        C.append(Cand(lambda k, key=key, u0=u0: le(u0, self.term_of(key, k)), 'ge-init(%s)' % (key,)))
                        C.append(Cand(lambda k, key=key, u0=u0: le(self.term_of(key, k), u0), 'le-init(%s)' % (key,)))
                        C.append(Cand(lambda k, key=key, u0=u0: le(self.term_of(key, k), iadd(u0, k)), 'le-init+k(%s)' % (key,)))
            elif ty.k == 'ptr' and isinstance(self.op.get(key), Ptr):
                v0 = self.init[key] if key in self.pty else self.cells[key][4]
                C.append(Cand(lambda k, key=key, u0=v0.off: le(u0, self.term_of(key, k)), 'ge-init(%s)' % (key,)))
        seen = set()
        for c in self.econds:
            for a, b in comparisons(c):
                if not (self.loopsym(a) or self.loopsym(b)):
                    continue
                if any(self.unstable(x) for x in (a, b)):
                    continue
                kk = (a if isinstance(a, int) else a.get_id(), b if isinstance(b, int) else b.get_id())
                if kk in seen:
                    continue
                seen.add(kk)
                for x, y in ((a, b), (b, a)):
                    C.append(Cand(lambda k, x=x, y=y: le(subst(x, [(self.k, k)]), subst(y, [(self.k, k)])),
                                  '%s <= %s' % (x, y)))
                # one step back: loops testing at the bottom
                for x, y in ((a, b), (b, a)):
                    C.append(Cand(lambda k, x=x, y=y: lt(subst(x, [(self.k, k)]), subst(y, [(self.k, k)])),
                                  '%s < %s' % (x, y)))
        for h in e.opts.get('inv', []):
            C += [Cand(f, s) for f, s in h(self)]
        self.cands = C
        # base case
        ok = []
        s = self.s0.clone()
        for key, o in list(self.op.items()):
            v0 = self.init[key] if key in self.pty else self.cells[key][4]
            self.bind0(s, key, o, v0)
        for c in self.cands:
            f = c.f(0)
            if f is True or (f is not False and e.proves(s, f, 1000)):
                ok.append(c)
        self.cands = ok

    def bind0(self, s, key, o, v0):
        """p(0) = initial value"""
        f = self.at(o, v0, 0, self.pty.get(key) or self.cells[key][3])
        if f is not None and f is not True:
            s.pc.append((bterm(f), False))

    def at(self, o, v, k, ty):
        e = self.e
        if o is UNDEF or o is None or v is UNDEF:
            return None
        if isinstance(o, Ptr):
            if not isinstance(v, Ptr) or o.obj is not v.obj or not isz(o.off):
                return None
            return eq(subst(o.off, [(self.k, k)]), v.off)
        if not isz(o):
            return None
        p = subst(o, [(self.k, k)])
        if z3.is_int(p):
            return eq(p, e.U(self.s0 if k == 0 else self.cur, v, ty.n))
        if z3.is_bool(p):
            return p == bterm(e.tobool(v))
        if isinstance(v, int):
            v = z3.BitVecVal(v, p.size())
        return p == v

    def unstable(self, t):
        """mentions symbols invented inside the body (other than p(k))"""
        if not isz(t):
            return False
        return False

    def houdini(self):
        """drop candidates that are not preserved; True when something was dropped"""
        e = self.e
        bad = set()
        for z in self.latches:
            vals = self.latch_vals(z)
            s = z.clone()
            self.cur = s
            k1 = iadd(self.k, 1)
            for key, o in self.op.items():
                if key in vals:
                    f = self.at(o, vals[key], k1, self.pty.get(key) or self.cells[key][3])
                    if f is not None and f is not True:
                        s.pc.append((bterm(f), False))
            for i, c in enumerate(self.cands):
                if i in bad:
                    continue
                f = c.f(k1)
                if f is True:
                    continue
                if f is False or not e.proves(s, f, 1500):
                    bad.add(i)
        if bad:
            self.cands = [c for i, c in enumerate(self.cands) if i not in bad]
        return bool(bad)

    # ---- the relation between iterations and the array summaries
    def build(self):
        e = self.e
        k = self.k
        km1 = isub(k, 1)
        rel = []
        guardsets = []
        for z in self.latches:
            body = z.pc[self.nhead:]
            guards = [t for t, g in body if g]
            facts = [t for t, g in body if not g]
            guardsets.append((z, guards, facts))
        # p(0) and p(k) from p(k-1)
        s = self.s0
        for key, o in self.op.items():
            v0 = self.init[key] if key in self.pty else self.cells[key][4]
            ty = self.pty.get(key) or self.cells[key][3]
            f = self.at(o, v0, 0, ty)
            if f is not None and f is not True:
                rel.append(bterm(f))
        alts = []
        for z, guards, facts in guardsets:
            self.cur = z
            vals = self.latch_vals(z)
            defs = []
            n0 = len(z.pc)
            for key, o in self.op.items():
                if key not in vals:
                    continue
                ty = self.pty.get(key) or self.cells[key][3]
                f = self.at(o, vals[key], k, ty)
                if f is None or f is True:
                    continue
                # f : p(k) = g(k) ; we need p(k) = g(k-1): build it explicitly
                x = vals[key]
                lhs = o.off if isinstance(o, Ptr) else o
                if isinstance(x, Ptr):
                    rhs = x.off
                elif z3.is_int(lhs):
                    rhs = e.U(z, x, ty.n)
                else:
                    rhs = x
                rhs = subst(rhs, [(k, km1)])
                if z3.is_int(lhs):
                    defs.append(bterm(eq(lhs, rhs)))
                elif z3.is_bool(lhs):
                    defs.append(lhs == bterm(e.tobool(rhs)))
                else:
                    defs.append(lhs == (z3.BitVecVal(rhs, lhs.size()) if isinstance(rhs, int) else rhs))
            facts2 = facts + [t for t, g in z.pc[n0:]]
            G = [bterm(subst(t, [(k, km1)])) for t in guards]
            F = [bterm(subst(t, [(k, km1)])) for t in facts2]
            alts.append(z3.And(*(G + F + defs)) if G + F + defs else z3.BoolVal(True))
        if alts:
            rel.append(z3.Implies(k > 0, z3.Or(*alts) if len(alts) > 1 else alts[0]))
        self.rel = rel
        self.lf = [(guards, facts) for _, guards, facts in guardsets]
        # array entries
        self.ents = {}
        for oid, o in self.arrs.items():
            r = self.array_entries(oid, guardsets)
            if r is not None:
                self.ents[oid] = r
            if self.e.opts.get('loop_trace') and r is None:
                print('   opaque array', o.name)

    def array_entries(self, oid, guardsets):
        e = self.e
        k = self.k
        multi = len(guardsets) > 1
        out = []
        for z, guards, facts in guardsets:
            if z.dead.get(oid):
                return []
            ents = self.new_entries(z, oid)
            for en in ents:
                if isinstance(en, W) and not self.loopsym(en.off):
                    key = ('c', oid, str(en.off) if isz(en.off) else en.off, en.size)
                    if key in self.cells:
                        continue
                if isinstance(en, Opaque):
                    return None
                kb = e.binder('kb')
                e.arng[kb.get_id()] = (0, None)
                sub = [(k, kb)]
                G = [subst(t, sub) for t in guards] if multi else []
                F = [subst(t, sub) for t in facts] + ([subst(t, sub) for t in guards] if not multi else [])
                if isinstance(en, Rng):
                    inner = en.inner
                    dep = self.ldep(inner)
                    try:
                        if not dep:
                            # same region every time: the last iteration wins
                            if multi:
                                return None
                            s1 = [(k, isub(k, 1))]
                            x = mem.subst_entry(en, s1)
                            out.append((Rng(x.binds, x.inner, x.guards + [k > 0], x.facts + [bterm(subst(t, s1)) for t in facts + guards]), z, None))
                        else:
                            x = mem.subst_entry(en, sub)
                            out.append((Rng([(kb, k)] + x.binds, x.inner, x.guards + G, x.facts + F), z, kb))
                    except Unsupported:
                        return None
                    continue
                loc = en.off if isinstance(en, W) else en.lo
                if isinstance(en, W) and isinstance(en.val, Ptr) and self.loopsym(en.val) is False and en.val.obj is not None \
                        and en.val.obj.id not in self.head.mem:
                    return None
                try:
                    if not self.loopsym(loc):
                        if isinstance(en, W) or multi:
                            return None
                        s1 = [(k, isub(k, 1))]
                        x = mem.subst_inner(en, s1)
                        d = e.binder('kd')
                        out.append((Rng([(d, 1)], _shift(x, d, e), [k > 0], [bterm(subst(t, s1)) for t in facts + guards]), z, None))
                    else:
                        x = mem.subst_inner(en, sub)
                        out.append((Rng([(kb, k)], x, G, F), z, kb))
                except Unsupported:
                    return None
        # entries of different iterations must not overwrite each other in the wrong order
        for i, (a, za, ka) in enumerate(out):
            for j, (b, zb, kb) in enumerate(out):
                if i == j or ka is None or kb is None:
                    continue
                # a at iteration k1 > k2 of b while b is above a in the log (j>i)
                if j > i and not self.disjoint(a, b):
                    if multi and len(a.binds) == 1 and isinstance(a.inner, W) and isinstance(b.inner, W) and \
                            isz(a.inner.off) and a.inner.size == b.inner.size and \
                            subst(a.inner.off, [(ka, kb)]) is not None and \
                            eq(subst(a.inner.off, [(ka, kb)]), b.inner.off) is True and not self.selfoverlap(a):
                        continue      # same place in the same iteration on exclusive paths
                    return None
        return [r for r, _, _ in out]

    def ldep(self, inner):
        loc = inner.off if isinstance(inner, W) else inner.lo
        return self.loopsym(loc)

    def ext(self, r, ks):
        sub = [(k, x) for (k, _), x in zip(r.binds, ks)]
        i = r.inner
        if isinstance(i, W):
            return subst(i.off, sub), i.size
        return subst(i.lo, sub), subst(i.len, sub)

    def selfoverlap(self, r):
        e = self.e
        s = self.head
        k1 = [e.fresh(s, 'o1', z3.IntSort()) for _ in r.binds]
        k2 = [e.fresh(s, 'o2', z3.IntSort()) for _ in r.binds]
        lo1, l1 = self.ext(r, k1)
        lo2, l2 = self.ext(r, k2)
        return not e.proves(s, Or(Not(And(*[And(le(0, x), lt(x, subst(K, [(r.binds[0][0], k1[0])]))) for x, (_, K) in zip(k1, r.binds)],
                                           *[And(le(0, x), lt(x, subst(K, [(r.binds[0][0], k2[0])]))) for x, (_, K) in zip(k2, r.binds)],
                                           lt(k2[0], k1[0]))),
                                  le(iadd(lo1, l1), lo2), le(iadd(lo2, l2), lo1)), 800)

    def disjoint(self, a, b):
        """a at an iteration after one of b"""
        e = self.e
        s = self.head
        k1 = [e.fresh(s, 'o1', z3.IntSort()) for _ in a.binds]
        k2 = [e.fresh(s, 'o2', z3.IntSort()) for _ in b.binds]
        d = k1[0]
        k1[0] = iadd(iadd(k2[0], d), 1)
        lo1, l1 = self.ext(a, k1)
        lo2, l2 = self.ext(b, k2)
        sa = [(k, x) for (k, _), x in zip(a.binds, k1)]
        sb = [(k, x) for (k, _), x in zip(b.binds, k2)]
        pre = [And(le(0, x), lt(x, subst(K, sa))) for x, (_, K) in zip(k1, a.binds)] + \
              [And(le(0, x), lt(x, subst(K, sb))) for x, (_, K) in zip(k2, b.binds)] + [le(0, d)]
        goal = Or(le(iadd(lo1, l1), lo2), le(iadd(lo2, l2), lo1))
        if e.proves(s, Or(Not(And(*pre)), goal), 800):
            return True
        gd = [subst(t, sa) for t in a.guards] + [subst(t, sb) for t in b.guards]
        return bool(gd) and e.proves(s, Or(Not(And(*pre, *gd)), goal), 800)

    def has_opaque(self):
        """do summarised values still mention unknown contents of this loop's arrays?"""
        for oid in self.arrs:
            if oid not in self.ents:
                continue
        names = ['op%d' % q.uid for q in self.opq.values()]
        if not names:
            return False
        for rs in self.ents.values():
            for r in rs:
                i = r.inner
                ts = list(r.guards)
                if isinstance(i, W):
                    ts += [i.val, i.off]
                elif isinstance(i, Cpy):
                    ts += [i.lo, i.len, i.slo]
                for t in ts:
                    if mentions(t, names):
                        return True
        for f in (self.rel or []):
            if mentions(f, names):
                return True
        return False

    def trip_count(self, z, n0):
        """left by a test of s*k against N: k is N divided by s, rounded up (true of any such k, s, N)"""
        e, k = self.e, self.k
        for t, g in z.pc[n0:]:
            for a, b in comparisons(t):
                sl = split_lin(isub(a, b), k)
                if sl is None or not sl[1] or pconst(sl[1]) is not None:
                    continue
                s, N = pterm(sl[1]), imul(pterm(sl[0]), -1)
                if not isz(N) or len(sl[1]) != 1:
                    continue
                if next(iter(sl[1].values())) < 0:
                    s, N = imul(s, -1), imul(N, -1)
                if not e.proves(z, And(le(0, N), lt(0, s))):
                    continue
                q = e.symdiv(z, N, s, 'udiv')
                r = e.symdiv(z, N, s, 'urem')
                z.pc.append((z3.Implies(bterm(And(le(N, imul(s, k)), Or(le(k, 0), lt(imul(s, isub(k, 1)), N)))),
                                        k == q + z3.If(r > 0, z3.IntVal(1), z3.IntVal(0))), False))
                return

    def finish(self, z):
        """what holds for every completed iteration, for later instantiation"""
        lf = z.gh.get('loopfacts', ())
        k = self.k
        alts = []
        for guards, facts in self.lf:
            alts.append(z3.And(*[bterm(t) for t in guards + facts]) if guards + facts else z3.BoolVal(True))
        cand = [bterm(c.f(k)) for c in self.cands]
        if alts:
            f = z3.Or(*alts) if len(alts) > 1 else alts[0]
            z.gh['loopfacts'] = lf + ((k, f, cand),)
            for h in z.gh.get('hints', ()):
                self.e.instantiate(z, (k, f, cand), h)


def _shift(x, d, e):
    """give a k-independent region entry a dummy binder of stride >= its length"""
    if isinstance(x, Cpy):
        return Cpy(iadd(x.lo, imul(d, x.len)), x.len, x.sobj, x.snode, x.slo)
    return Fil(iadd(x.lo, imul(d, x.len)), x.len, x.byte)


def mentions(t, names, cache={}):
    if isinstance(t, Ptr):
        t = t.off
    if isinstance(t, tuple):
        return any(mentions(x, names) for x in t)
    if not isz(t):
        return False
    for i in atoms_in(t):
        x = KEEP.get(i)
        if x is not None and z3.is_app(x) and x.decl().name() in names:
            return True
    return False


def comparisons(c):
    """integer comparison pairs occurring in a condition"""
    out = []
    if not isz(c):
        return out
    k = c.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c.num_args() == 2 and z3.is_int(c.arg(0)):
        a, b = norm(c.arg(0)), norm(c.arg(1))
        out.append((a, b))
        return out
    for x in c.children():
        if z3.is_bool(x):
            out += comparisons(x)
    return out


def instantiate(self, z, lf, t):
    k, f, cand = lf
    if isz(t) and t.eq(k):
        return
    sub = [(k, t)]
    mem.add_facts(self, z, And(le(0, t), lt(t, k)), [subst(f, sub)] + [subst(c, sub) for c in cand])


Engine.instantiate = instantiate
