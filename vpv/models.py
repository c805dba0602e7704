"""contracts of everything outside the verified code (trusted) and the vp_* interface"""
import re
import z3
from sx import *
import sx
import mem
from mem import Maybe
from ir import I64, I8, I32, PTR, int_ty, F32, F64


def cstr(x, st, p):
    """concrete C string behind a pointer"""
    out = bytearray()
    i = 0
    while True:
        b = mem.read(x, st, p.obj, st.mem.get(p.obj.id), iadd(p.off, i), 1, I8)
        if not isinstance(b, int):
            raise Unsupported('symbolic string')
        if b == 0:
            return out.decode('latin1')
        out.append(b)
        i += 1


def install(x):
    M = x.models
    x.model_rx = []

    def model(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def rx(*pats):
        def d(f):
            for p in pats:
                x.model_rx.append((re.compile(p), f))
            return f
        return d

    # ------------------------------------------------------------ vp interface
    def inp(st, name, kind, t, extra=None):
        n = sum(1 for i in x.inputs if i[0] == name)
        if not x.quiet:
            x.inputs.append((name, kind, t, extra))

    @model('vp_u64')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        lo, hi = a[1], a[2]
        if x.mode == 'bv':
            t = x.fresh(st, nm, z3.BitVecSort(64))
            st.pc.append((z3.And(z3.UGE(t, lo), z3.ULE(t, hi)), False))
            if isinstance(lo, int) and isinstance(hi, int) and lo == 0 and hi.bit_length() in (8, 16, 32) and hi & (hi + 1) == 0:
                n = hi.bit_length()
                s = x.fresh(st, nm, z3.BitVecSort(n))
                t = z3.ZeroExt(64 - n, s)
                keep(t)
        elif isinstance(lo, int) and isinstance(hi, int):
            t = x.fresh_int(st, nm, lo, hi)
        else:
            lo, hi = x.U(st, lo, 64), x.U(st, hi, 64)
            t = x.fresh_int(st, nm, 0, (1 << 64) - 1)
            st.pc.append((bterm(And(le(lo, t), le(t, hi))), False))
        inp(st, nm, 'u64', t, a[3] if len(a) > 3 else None)
        return t

    @model('vp_i64')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        if x.mode == 'bv':
            t = x.fresh(st, nm, z3.BitVecSort(64))
            lo = a[1] if isz(a[1]) else z3.BitVecVal(a[1], 64)
            hi = a[2] if isz(a[2]) else z3.BitVecVal(a[2], 64)
            st.pc.append((z3.And(t >= lo, t <= hi), False))
        else:
            t = x.fresh_int(st, nm, x.S(st, a[1], 64), x.S(st, a[2], 64))
        inp(st, nm, 'i64', t)
        return t

    @model('vp_bool')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        t = x.fresh(st, nm, z3.BoolSort())
        inp(st, nm, 'bool', t)
        return t

    @model('vp_f32')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        t = x.fresh(st, nm, z3.BitVecSort(32))
        inp(st, nm, 'f32', t)
        return t

    @model('vp_f64')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        t = x.fresh(st, nm, z3.BitVecSort(64))
        inp(st, nm, 'f64', t)
        return t

    @model('vp_array')
    def _(x, st, a, ins):
        """name, n elements, element size, kind (0 int, 1 float)"""
        nm = cstr(x, st, a[0])
        n, es, kind = a[1], a[2], a[3]
        if x.mode == 'int':
            n = x.U(st, n, 64)
        else:
            n = x.idx(st, n, I64)
        o = mem.alloc(x, st, nm, imul(n, es), es, 'float' if kind else 'int')
        inp(st, nm, 'array', o, (n, es, kind))
        return Ptr(o, 0)

    @model('vp_array_r')
    def _(x, st, a, ins):
        """as vp_array for integers, every element (signed reading) in [lo,hi]"""
        nm = cstr(x, st, a[0])
        n, es = a[1], a[2]
        lo, hi = x.S(st, a[3], 64), x.S(st, a[4], 64)
        n = x.U(st, n, 64)
        o = mem.alloc(x, st, nm, imul(n, es), es, 'int')
        M = 1 << (8 * es)

        def fact(x, st, t, ix, lo=lo, hi=hi, M=M):
            key = ('ef', t.get_id())
            if key in st.gh:
                return
            st.gh[key] = 1
            if isinstance(lo, int) and lo >= 0:
                st.pc.append((bterm(And(le(lo, t), le(t, hi))), False))
                if isinstance(hi, int):
                    x.arng[t.get_id()] = (lo, hi)
            else:
                h2 = M >> 1
                st.pc.append((bterm(Or(And(le(lo, t), le(t, hi), lt(t, h2)), And(le(iadd(lo, M), t), le(t, iadd(hi, M)), le(h2, t)))), False))
        o.elemfact = fact
        inp(st, nm, 'array', o, (n, es, 0))
        return Ptr(o, 0)

    @model('vp_array_inj')
    def _(x, st, a, ins):
        """as vp_array_r (0 <= lo), elements pairwise different: an inverse function exists"""
        p = M['vp_array_r'](x, st, a, ins)
        o = p.obj
        base = o.elemfact
        inv = x.uf('inv!%d' % o.id, z3.IntSort(), z3.IntSort())
        o.inv = inv

        def fact(x, st, t, ix):
            base(x, st, t, ix)
            key = ('inj', t.get_id())
            if key in st.gh:
                return
            st.gh[key] = 1
            n = o.size // o.gran if isinstance(o.size, int) else None
            st.pc.append((z3.Implies(bterm(And(le(0, ix), lt(imul(ix, o.gran), o.size))), inv(t) == ix), False))
        o.elemfact = fact
        return p

    @model('vp_index_of')
    def _(x, st, a, ins):
        o = a[0].obj
        t = x.U(st, a[1], 64)
        r = o.inv(t if isz(t) else z3.IntVal(t))
        keep(r)
        x.arng[r.get_id()] = (0, (1 << 64) - 1)
        st.pc.append((z3.And(r >= 0, r < (1 << 64)), False))
        hint(x, st, r)
        return r

    @model('vp_assume')
    def _(x, st, a, ins):
        c = a[0]
        if c is False:
            x.ended['kill'] += 1
            return END
        if c is True:
            return None
        if x.check(st, c, 1000) == 'unsat':
            x.ended['kill'] += 1
            return END
        # assumed facts are guards: on the other side the execution does not exist
        st.pc.append((c, False))
        return None

    @model('vp_check')
    def _(x, st, a, ins):
        x.oblige(st, a[0], 'post', cstr(x, st, a[1]), 'contract')
        return None

    @model('vp_cover')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        if not x.covers.get(nm):
            r = x.check(st, True, 5000)
            x.covers[nm] = r != 'unsat'
        return None

    @model('vp_symbolic')
    def _(x, st, a, ins):
        return True

    @model('vp_pick')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        n = x.U(st, a[1], 64)
        if x.proves(st, le(n, 0)):
            x.ended['kill'] += 1
            return END
        t = x.fresh_int(st, nm, 0, (1 << 64) - 1)
        st.pc.append((bterm(lt(t, n)), False))
        inp(st, nm, 'u64', t)
        hint(x, st, t)
        return t

    @model('vp_case')
    def _(x, st, a, ins):
        """one of the numbers below a[1], each followed on its own"""
        nm = cstr(x, st, a[0])
        n = a[1]
        t = x.fresh_int(st, nm, 0, n - 1)
        inp(st, nm, 'u64', t)
        res = []
        for i in range(n):
            s2 = st.clone() if i < n - 1 else st
            s2.pc.append((bterm(eq(t, i)), True))
            res.append((s2, i))
        return res

    def hint(x, st, t):
        st.gh['hints'] = st.gh.get('hints', ()) + (t,)
        for lf in st.gh.get('loopfacts', ()):
            x.instantiate(st, lf, t)

    @model('vp_hint')
    def _(x, st, a, ins):
        hint(x, st, x.U(st, a[0], 64))
        return None

    @model('vp_fa_begin')
    def _(x, st, a, ins):
        nm = cstr(x, st, a[0])
        n = x.clean(st, x.U(st, a[1], 64)) if x.mode == 'int' else x.U(st, a[1], 64)
        if x.proves(st, le(n, 0)):
            return (1 << 64) - 1
        t = x.fresh_int(st, nm, 0, (1 << 63))
        st2 = st.clone()
        res = []
        if not x.proves(st, lt(0, n)):
            st2.pc.append((bterm(le(n, 0)), True))
            res.append((st2, (1 << 64) - 1))
        st.pc.append((bterm(lt(t, n)), True))
        hint(x, st, t)
        res.append((st, t))
        return res

    @model('vp_fa_end')
    def _(x, st, a, ins):
        if a[0] == (1 << 64) - 1 and isinstance(a[0], int):
            return 0
        return iadd(a[0], 1)

    @model('vp_fa_next')
    def _(x, st, a, ins):
        return (1 << 64) - 1

    @model('vp_static_init')
    def _(x, st, a, ins):
        """run the constructors of the globals of every module"""
        names = []
        for m in x.mods:
            l = m.glines.get('llvm.global_ctors')
            if l:
                names += [n.strip('"') for n in re.findall(r'ptr @("[^"]*"|[-a-zA-Z$._0-9]+), ptr', l)]

        def nxt(x, s, v):
            if names:
                x.call_fn(s, names.pop(0), [], None, nxt)
            return None
        if not names:
            return None
        x.call_fn(st, names.pop(0), [], None, nxt)
        return PUSHED

    @model('vp_obj_size')
    def _(x, st, a, ins):
        return a[0].obj.size

    # ------------------------------------------------------------ functions used through their own contract
    def pure(nm):
        """a function of its arguments only: nothing else is used here"""
        def f(x, st, a, ins):
            args = []
            for (t, _), v in zip(ins.a, a):
                if v is UNDEF:
                    v = x.fresh_val(st, 'uninit', t)
                if t.k == 'int':
                    v = x.U(st, v, t.n) if x.mode == 'int' else v
                    if isinstance(v, (int, bool)):
                        v = z3.IntVal(int(v)) if x.mode == 'int' else z3.BitVecVal(int(v), t.n)
                elif t.k not in ('float', 'double'):
                    raise Unsupported('pure function with a pointer argument: ' + nm)
                args.append(v)
            t = ins.ty
            if t.k == 'int' and t.n == 1:
                so = z3.BoolSort()
            elif t.k == 'int':
                so = z3.IntSort() if x.mode == 'int' else z3.BitVecSort(t.n)
            else:
                so = z3.BitVecSort(x.FB[t.k])
            r = x.uf('pure!' + nm, *[v.sort() for v in args], so)(*args)
            keep(r)
            if so == z3.IntSort():
                x.arng[r.get_id()] = (0, (1 << t.n) - 1)
                st.pc.append((z3.And(r >= 0, r < (1 << t.n)), False))
            return r
        return f
    for p in x.opts.get('pure', ()):
        for m in x.mods:
            for nm in m.funcs:
                if re.search(p, nm):
                    M[nm] = pure(nm)

    # ------------------------------------------------------------ memory
    @model('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', 'fftwf_malloc')
    def _(x, st, a, ins):
        n = x.U(st, a[0], 64) if x.mode == 'int' else x.idx(st, a[0], I64)
        o = mem.alloc(x, st, 'heap', n)
        o.heap = True
        return Ptr(o, 0)

    @model('calloc')
    def _(x, st, a, ins):
        n = imul(x.U(st, a[0], 64), x.U(st, a[1], 64))
        o = mem.alloc(x, st, 'heap', n)
        o.heap = True
        mem.push(x, st, o, Fil(0, n, 0))
        return Ptr(o, 0)

    @model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', 'fftwf_free')
    def _(x, st, a, ins):
        p = a[0]
        if p is UNDEF:
            x.oblige(st, False, 'memory', 'free of an uninitialised pointer', '')
            return None
        if p.obj is None:
            return None
        x.oblige(st, And(eq(p.off, 0), not st.dead.get(p.obj.id, False), p.obj.heap or not x.opts.get('heapcheck', True)),
                 'memory', 'valid free of %s' % p.obj.name, '')
        st.dead[p.obj.id] = True
        return None

    @rx(r'llvm\.memcpy\.', r'llvm\.memmove\.', r'memcpy$', r'memmove$')
    def _(x, st, a, ins):
        mem.memcpy(x, st, a[0], a[1], a[2])
        return a[0]

    @rx(r'llvm\.memset\.', r'memset$')
    def _(x, st, a, ins):
        b = a[1]
        if isinstance(b, int):
            b &= 255
        mem.memset(x, st, a[0], b, a[2])
        return a[0]

    @rx(r'llvm\.lifetime\.', r'llvm\.invariant', r'llvm\.assume', r'llvm\.dbg', r'llvm\.experimental\.noalias', r'llvm\.va_', r'__cxa_atexit',
        r'llvm\.donothing', r'llvm\.stacksave', r'llvm\.stackrestore', r'_ZNSt8ios_base4Init', r'__cxa_guard_release',
        r'__cxa_guard_abort', r'__dynamic_cast_unused')
    def _(x, st, a, ins):
        return None

    @model('__cxa_guard_acquire')
    def _(x, st, a, ins):
        v = mem.load(x, st, a[0], I8)
        if isinstance(v, int) and v:
            return 0
        mem.store(x, st, a[0], 1, I8)
        return 1

    @rx(r'llvm\.expect\.', r'llvm\.launder', r'llvm\.strip', r'llvm\.annotation')
    def _(x, st, a, ins):
        return a[0]

    @rx(r'llvm\.u(min|max)\.i', r'llvm\.s(min|max)\.i')
    def _(x, st, a, ins):
        n = ins.ty.n
        nm = ins.x['callee'][1]
        s, mx = nm[5] == 's', 'max' in nm
        c = x.do_icmp(st, ('s' if s else 'u') + ('gt' if mx else 'lt'), a[0], a[1], ins.ty)
        if isinstance(c, bool):
            return a[0] if c else a[1]
        if x.mode == 'bv':
            return Ite(c, a[0], a[1])
        f = x.S if s else x.U
        return Ite(c, f(st, a[0], n), f(st, a[1], n))

    @rx(r'llvm\.abs\.i')
    def _(x, st, a, ins):
        n = ins.ty.n
        s = x.S(st, a[0], n)
        r = Ite(le(0, s), s, isub(0, s))
        return r

    @rx(r'llvm\.ct(lz|tz|pop)\.i')
    def _(x, st, a, ins):
        n = ins.ty.n
        nm = ins.x['callee'][1]
        v = a[0]
        if isinstance(v, int):
            v &= (1 << n) - 1
            return bin(v).count('1') if 'ctpop' in nm else n - v.bit_length() if 'ctlz' in nm else (v & -v).bit_length() - 1 if v else n
        if x.mode == 'bv':
            r = z3.BitVecVal(n, n)
            if 'ctpop' in nm:
                return z3.simplify(sum((z3.ZeroExt(n - 1, z3.Extract(i, i, v)) for i in range(n)), z3.BitVecVal(0, n)))
            for i in (range(n) if 'ctlz' in nm else range(n - 1, -1, -1)):
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(n - 1 - i if 'ctlz' in nm else i, n), r)
            return z3.simplify(r)
        return x.fresh_int(st, 'bits', 0, n)

    @rx(r'llvm\.is\.constant')
    def _(x, st, a, ins):
        return False

    @rx(r'llvm\.bswap\.i')
    def _(x, st, a, ins):
        n = ins.ty.n // 8
        v = a[0]
        if x.mode == 'bv':
            if isinstance(v, int):
                return int.from_bytes(v.to_bytes(n, 'little'), 'big')
            return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]))
        bs = [mem.sub_bytes(x, st, v, ins.ty, n, i, 1, I8) for i in range(n)]
        return mem.from_bytes(x, st, bs[::-1], ins.ty)

    @rx(r'llvm\.fabs\.')
    def _(x, st, a, ins):
        n = x.FB[ins.ty.k]
        return z3.simplify(a[0] & ((1 << (n - 1)) - 1))

    @rx(r'fabsf?$')
    def _(x, st, a, ins):
        n = x.FB[ins.ty.k]
        return z3.simplify(a[0] & ((1 << (n - 1)) - 1))

    @rx(r'llvm\.fmuladd\.')
    def _(x, st, a, ins):
        # contraction off: two roundings, as the g++ -O2 build on x86-64 does
        return x.fbin(st, 'fadd', x.fbin(st, 'fmul', a[0], a[1], ins.ty), a[2], ins.ty)

    @rx(r'(llvm\.)?(sqrt|floor|ceil|round|trunc|rint|nearbyint|cos|sin|exp|log|log10|log2|pow|atan2|atan|tan|fmod|hypot|exp2|tanh|sinh|cosh|lround)f?(\.f(32|64))?$')
    def _(x, st, a, ins):
        nm = ins.x['callee'][1].replace('llvm.', '').split('.')[0]
        if ins.ty.k in ('float', 'double'):
            n = x.FB[ins.ty.k]
            nm = nm.rstrip('f') if nm != 'modf' else nm
            if nm == 'pow' and z3.is_bv_value(z3.simplify(a[1])):
                e = z3.simplify(z3.fpBVToFP(a[1], x.FS[ins.ty.k]))
                if z3.is_true(z3.simplify(z3.fpEQ(e, z3.FPVal(2.0, x.FS[ins.ty.k])))):
                    return x.fbin(st, 'fmul', a[0], a[0], ins.ty)
            ex = {'sqrt': None, 'floor': z3.RTN, 'ceil': z3.RTP, 'trunc': z3.RTZ, 'round': z3.RNA, 'rint': z3.RNE, 'nearbyint': z3.RNE}
            if nm in ex and (x.fp == 'exact' or z3.is_bv_value(z3.simplify(a[0]))) and ins.ty.k in x.FS:
                v = x.tofp(a[0], ins.ty)
                r = z3.fpSqrt(z3.RNE(), v) if ex[nm] is None else z3.fpRoundToIntegral(ex[nm](), v)
                return z3.simplify(z3.fpToIEEEBV(r))
            f = x.uf('lib_%s_%d' % (nm, n), *[v.sort() for v in a], z3.BitVecSort(n))
            t = f(*a)
            keep(t)
            if nm in ('cos', 'sin') and x.fp == 'exact':
                # libm: between -1 and 1 for finite arguments; cos 0 = 1, sin 0 = 0
                v, r = x.tofp(a[0], ins.ty), x.tofp(t, ins.ty)
                one = z3.FPVal(1.0, x.FS[ins.ty.k])
                fin = z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
                st.pc.append((z3.Implies(fin, z3.And(z3.fpLEQ(z3.fpNeg(one), r), z3.fpLEQ(r, one))), False))
                st.pc.append((z3.Implies(z3.fpIsZero(v), z3.fpEQ(r, one) if nm == 'cos' else z3.fpIsZero(r)), False))
            return t
        f = x.uf('lib_%s' % nm, *[v.sort() for v in a], z3.IntSort())
        t = f(*a)
        lo, hi = -(1 << 63), (1 << 63) - 1
        keep(t)
        x.arng[t.get_id()] = (lo, hi)
        st.pc.append((z3.And(t >= lo, t <= hi), False))
        return t

    # ------------------------------------------------------------ exceptions
    @model('__cxa_allocate_exception')
    def _(x, st, a, ins):
        return Ptr(mem.alloc(x, st, 'exception', 64), 0)

    def fill(letter, n):
        @rx(r'_ZSt9__fill_a1IP%s%sEN9__gnu_cxx11__enable_if' % (letter, letter))
        def _(x, st, a, ins):
            """std::fill of integers with zero; anything else takes the code's own loop"""
            f, l = a[0], a[1]
            if f.obj is not l.obj:
                return OWN
            if f.obj is None:
                return None
            v = mem.load(x, st, a[2], int_ty(n))
            if not (isinstance(v, int) and v == 0):
                return OWN
            mem.memset(x, st, f, 0, isub(l.off, f.off))
            return None
    for letter, n in (('m', 64), ('l', 64), ('i', 32), ('j', 32)):
        fill(letter, n)

    @rx(r'llvm\.umul\.with\.overflow\.i64')
    def _(x, st, a, ins):
        u = imul(x.U(st, a[0], 64), x.U(st, a[1], 64))
        if x.proves(st, lt(u, 1 << 64)):
            return (u, False)
        return (x.U(st, u, 64), Not(lt(u, 1 << 64)))

    @rx(r'_ZSt11max_elementIN9__gnu_cxx17__normal_iteratorIPm')
    def _(x, st, a, ins):
        """an element that none exceeds; the bound is known at the hinted places"""
        f, l = a[0], a[1]
        o = f.obj
        n = pdivc(poly(x.clean(st, iadd(l.off, imul(f.off, -1)))), 8)
        n = None if n is None else pterm(n)
        if n is None or not x.proves(st, lt(0, n)):
            raise Unsupported('max_element of a possibly empty range')

        def at(i):
            off = iadd(f.off, imul(i, 8))
            return x.U(st, mem.read(x, st, o, st.mem.get(o.id), off, 8, I64), 64)
        m = x.fresh_int(st, 'max_at', 0, (1 << 63))
        st.pc.append((bterm(lt(m, n)), False))
        v = at(m)
        for h in st.gh.get('hints', ()):
            st.pc.append((z3.Implies(bterm(And(le(0, h), lt(h, n))), bterm(le(at(h), v))), False))
        return Ptr(o, iadd(f.off, imul(m, 8)))

    @rx(r'__cxa_throw$', r'__cxa_rethrow$', r'_ZSt\d+__throw_', r'__cxa_bad_cast', r'_ZSt9terminatev', r'__clang_call_terminate',
        r'__cxa_throw_bad_array', r'__cxa_pure_virtual')
    def _(x, st, a, ins):
        x.ended['throw'] += 1
        if x.opts.get('throw_ok'):
            return END
        x.oblige(st, False, 'throw', 'no exception is thrown', st.frames[-1].fn.name)
        return END

    @rx(r'__cxa_begin_catch', r'__cxa_end_catch', r'__cxa_free_exception', r'llvm\.eh\.')
    def _(x, st, a, ins):
        return NULL

    @rx(r'llvm\.trap', r'abort$', r'exit$', r'__assert_fail', r'_Exit$')
    def _(x, st, a, ins):
        x.oblige(st, False, 'abort', 'the program does not abort', st.frames[-1].fn.name)
        return END

    @model('strlen')
    def _(x, st, a, ins):
        return len(cstr(x, st, a[0]))

    @model('memcmp', 'bcmp')
    def _(x, st, a, ins):
        if not isinstance(a[2], int):
            raise Unsupported('memcmp of symbolic length')
        for i in range(a[2]):
            p = mem.load(x, st, Ptr(a[0].obj, iadd(a[0].off, i)), I8)
            q = mem.load(x, st, Ptr(a[1].obj, iadd(a[1].off, i)), I8)
            if not (isinstance(p, int) and isinstance(q, int)):
                raise Unsupported('symbolic memcmp')
            if p != q:
                return (p - q)
        return 0

    @model('__gxx_personality_v0')
    def _(x, st, a, ins):
        return 0

    # ------------------------------------------------------------ std::shared_ptr thread detection
    @model('__gthread_active_p', '_ZL18__gthread_active_pv')
    def _(x, st, a, ins):
        return 0

    # ------------------------------------------------------------ output streams, logging: no effect on results
    @rx(r'_ZNSo', r'_ZStlsISt11char_traits', r'_ZNSt13basic_ostream', r'_ZSt4endl', r'_ZSt16__ostream_insert', r'printf$',
        r'puts$', r'putchar$', r'fprintf$', r'fflush$')
    def _(x, st, a, ins):
        return a[0] if a and ins.ty.k == 'ptr' else 0

    # ------------------------------------------------------------ red-black tree primitives of libstdc++ (map/set)
    try:
        import stlmodels
        stlmodels.install(x, model, rx)
    except ImportError:
        pass
