"""Contract primitives and trusted contracts of external functions.

Everything here is an assumption about code outside /repo (libc, libm,
libstdc++'s out-of-line part, LLVM intrinsics) or the contract language."""
from fractions import Fraction
from term import *
from exec import *
import exec as X


def cstr(ex, s, v):
    p = ex.ptr_of(s, v)
    r = ex.region(s, p)
    out = ""
    o = p.o
    while True:
        c = r.cells.get(o)
        if c is None or c[1] == 0:
            return out
        out += chr(c[1] & 255)
        o += 1


def isnum(v):
    return isinstance(v, Fraction) or (isT(v) and v.sort == "R")


def build(ex):
    E = {}

    def reg(*names):
        def d(f):
            for n in names:
                E[n] = f
            return f
        return d

    def iname(s, n):
        k = s.flags.get("n:" + n, 0)
        s.flags["n:" + n] = k + 1
        return n if k == 0 else "%s#%d" % (n, k)

    # ---- contract language
    @reg("vp_double")
    def _(s, fr, a, ins):
        n = iname(s, cstr(ex, s, a[0]))
        if s.rec is not None:
            raise Unsupported("input drawn inside a loop")
        ex.inputs[n] = ("R", a[1], a[2])
        return var(n, "R")

    @reg("vp_int")
    def _(s, fr, a, ins):
        n = iname(s, cstr(ex, s, a[0]))
        if s.rec is not None:
            raise Unsupported("input drawn inside a loop")
        ex.inputs[n] = ("I", a[1], a[2])
        v = var(n, "I")
        ex.assume(s, le(a[1], v))
        ex.assume(s, le(v, a[2]))
        return v

    @reg("vp_bool")
    def _(s, fr, a, ins):
        n = iname(s, cstr(ex, s, a[0]))
        ex.inputs[n] = ("B", 0, 1)
        return ite(var(n, "B"), 1, 0) if ins[2] != "i1" else var(n, "B")

    @reg("vp_choice")
    def _(s, fr, a, ins):
        # small concrete case split 0..n-1 (may fork: the name counter moves last)
        n0 = cstr(ex, s, a[0])
        k = s.flags.get("n:" + n0, 0)
        n = n0 if k == 0 else "%s#%d" % (n0, k)
        v = var(n, "I")
        ex.inputs[n] = ("I", 0, a[1] - 1)
        for i in range(a[1] - 1):
            if ex.decide(s, eq(v, i)):
                s.flags["n:" + n0] = k + 1
                return i
        ex.assume(s, eq(v, a[1] - 1))
        s.flags["n:" + n0] = k + 1
        return a[1] - 1

    @reg("vp_doubles")
    def _(s, fr, a, ins):
        n = iname(s, cstr(ex, s, a[0]))
        p = ex.ptr_of(s, a[1])
        cnt = a[2]
        ex.inputs[n] = ("A", a[3], a[4])
        if s.rec is not None:
            raise Unsupported("input drawn inside a loop")
        if not isT(cnt):
            for i in range(cnt):
                ex.store(s, Ptr(p.r, add(p.o, 8 * i)), 8, app("in:" + n, (i,), "R"))
            return
        ex.bounds(s, p, mul(8, cnt), "write (input)")
        k = fresh("k", "I")
        rg = ex.wregion(s, p.r)
        ex.flush(rg)
        rg.below = (("rng", (k,), (cnt,), add(p.o, mul(8, k)), 8, app("in:" + n, (k,), "R"), True), rg.below)

    @reg("vp_any")
    def _(s, fr, a, ins):
        # deterministic unknown function of its arguments (interface contract)
        n = cstr(ex, s, a[0])
        args = []
        for x in a[1:]:
            if x.__class__ is str:
                raise Unsupported("special value %s to vp_any %s" % (x, n))
            args.append(x)
        ex.inputs["fn:" + n] = ("F", len(args), 0)
        return app("fn:" + n, tuple(args), "R")

    for _k in (0, 1, 2, 3, 4):
        E["vp_any%d" % _k] = E["vp_any"]

    @reg("vp_requires")
    def _(s, fr, a, ins):
        ex.assume(s, tobool(a[0]))
        if s.rec is not None and isT(a[0]):
            raise Unsupported("requires inside a summarised loop")

    @reg("vp_ensures")
    def _(s, fr, a, ins):
        ex.oblige(s, cstr(ex, s, a[0]), "ensures", tobool(a[1]))

    @reg("vp_lemma")
    def _(s, fr, a, ins):
        c = tobool(a[1])
        ex.oblige(s, cstr(ex, s, a[0]), "lemma", c)
        ex.assume(s, c)

    @reg("vp_fact")
    def _(s, fr, a, ins):
        ex.lemmas_used.add(cstr(ex, s, a[0]))
        ex.fact(s, tobool(a[1])) if isT(tobool(a[1])) else None

    @reg("vp_unreachable")
    def _(s, fr, a, ins):
        ex.oblige(s, cstr(ex, s, a[0]), "unreachable", False)

    @reg("vp_cover")
    def _(s, fr, a, ins):
        ex.covers.add(cstr(ex, s, a[0]))

    @reg("vp_equal")
    def _(s, fr, a, ins):
        l = cstr(ex, s, a[0])
        if isnum(a[1]) and isnum(a[2]):
            ex.oblige(s, l, "equal", eq(a[1], a[2]))
        elif a[1].__class__ is str and a[2].__class__ is str:
            ex.oblige(s, l, "equal", a[1] == a[2])
        elif a[1] is UNDEF or a[2] is UNDEF:
            ex.oblige(s, l + " (uninitialised)", "equal", False)
        else:
            ex.oblige(s, l, "equal", False)

    E["vp_equals"] = E["vp_equal"]

    @reg("vp_near")
    def _(s, fr, a, ins):
        if isnum(a[1]) and isnum(a[2]):
            d = sub(a[1], a[2])
            ex.oblige(s, cstr(ex, s, a[0]), "near", band(le(d, a[3]), le(neg(a[3]), d)))
        else:
            ex.oblige(s, cstr(ex, s, a[0]), "near", a[1] == a[2])

    @reg("vp_le")
    def _(s, fr, a, ins):
        if isnum(a[1]) and isnum(a[2]):
            ex.oblige(s, cstr(ex, s, a[0]), "le", le(a[1], a[2]))
        else:
            ex.oblige(s, cstr(ex, s, a[0]), "le", ex.fcmp(s, "ole", a[1], a[2]))

    @reg("vp_opaque")
    def _(s, fr, a, ins):
        return a[0]

    @reg("vp_let")
    def _(s, fr, a, ins):
        x = a[0]
        if not isT(x) or x.op == "var":
            return x
        v = fresh("let", "R")
        ex.fact(s, eq(v, x))
        return v

    @reg("vp_symbolic")
    def _(s, fr, a, ins):
        return 1

    @reg("vp_show")
    def _(s, fr, a, ins):
        print("SHOW", cstr(ex, s, a[0]), show(a[1]) if isT(a[1]) else a[1])

    # ---- libm
    def m1(name):
        def f(s, fr, a, ins):
            x = a[0]
            if x.__class__ is str:
                if x == NAN:
                    return NAN
                if name == "exp":
                    return Fraction(0) if x == NEGI else POS
                if name in ("log", "log10", "sqrt") and x == POS:
                    return POS
                if name == "atan":
                    return mul(Fraction(1 if x == POS else -1, 2), PI)
                return NAN
            if x is UNDEF:
                x = fresh("undef", "R")
            if name in ("log", "log10", "log2") and not isT(x):
                if x == 0:
                    return NEGI
                if x < 0:
                    return NAN
            if name == "sqrt" and not isT(x) and x < 0:
                return NAN
            if name == "sqrt" and isT(x):
                if ex.quiet(s, le(Fraction(0), x)) is None:
                    ex.assumed.add("arguments of sqrt/log/asin/acos lie in their domain")
            return fn(name, x)
        return f

    for n in ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "log2", "sinh", "cosh", "tanh", "cbrt"):
        E[n] = m1(n)
        E[n + "f"] = m1(n)
        for w in ("f64", "f32"):
            E["llvm.%s.%s" % (n, w)] = m1(n)


    def m2(name):
        def f(s, fr, a, ins):
            if a[0].__class__ is str or a[1].__class__ is str:
                import math
                if isT(a[0]) or isT(a[1]):
                    raise Unsupported(name + " of special value")
                try:
                    return ffloat(getattr(math, name)(tofloat(a[0]), tofloat(a[1])))
                except (ValueError, OverflowError):
                    return NAN
            if name == "hypot":
                return fn("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1])))
            if name == "atan2":
                y, x = a
                if not isT(y) and not isT(x):
                    if y == 0:
                        return Fraction(0) if x >= 0 else PI
                    if x == 0:
                        return mul(Fraction(1 if y > 0 else -1, 2), PI)
                if not isT(x) and x == 0:
                    d = ex.quiet(s, lt(Fraction(0), y))
                    if d is True:
                        return mul(Fraction(1, 2), PI)
            return fn(name, a[0], a[1])
        return f

    def bessel(kind):
        def f(s, fr, a, ins):
            if any(x.__class__ is str for x in a):
                return NAN
            return mk("app", ("bessel_" + kind,) + tuple(a), "R")
        return f

    for n in "ij":  # templates of libstdc++: a fixed function of order and argument
        E["_ZNSt8__detail14__cyl_bessel_%sIdEET_S1_S1_" % n] = bessel(n)

    for n in ("atan2", "pow", "hypot"):
        E[n] = m2(n)
        E["llvm.%s.f64" % n] = m2(n)

    # ---- complex arithmetic (pairs of reals)
    def cplx(f, n):
        def g(s, fr, a, ins):
            for x in a[:n]:
                if x.__class__ is str:
                    raise Unsupported("complex function of special value")
            return f(s, *a[:n])
        return g

    quot = {}  # complex quotients: modulus and argument from numerator and denominator

    def c_arg(s, a, b):
        q = quot.get((a, b))
        if q:
            a, b = q[4], q[5]
        return E["atan2"](s, None, [b, a], None)

    def c_abs(s, a, b):
        q = quot.get((a, b))
        if q:
            return div(c_abs(s, q[0], q[1]), c_abs(s, q[2], q[3]))
        if not isT(b) and b == 0:
            return E["fabs"](s, None, [a], None)
        if not isT(a) and a == 0:
            return E["fabs"](s, None, [b], None)
        return fn("sqrt", add(mul(a, a), mul(b, b)))

    def c_sqrt(s, a, b):
        # principal root; a zero imaginary part counts as +0
        if not isT(b) and b == 0:
            q = ex.quiet(s, le(Fraction(0), a))
            r, i = fn("sqrt", a if q is True else ite(le(Fraction(0), a), a, Fraction(0))), Fraction(0)
            if q is not True:
                i = fn("sqrt", ite(le(Fraction(0), a), Fraction(0), neg(a)))
                if q is False:
                    r, i = Fraction(0), fn("sqrt", neg(a))
            return [r, i]
        m = fn("sqrt", add(mul(a, a), mul(b, b)))
        h = Fraction(1, 2)
        r, i = fn("sqrt", mul(h, add(m, a))), fn("sqrt", mul(h, sub(m, a)))
        q = ex.quiet(s, le(Fraction(0), b))
        return [r, i if q is True else neg(i) if q is False else ite(le(Fraction(0), b), i, neg(i))]

    def c_div(s, a, b, c, d):
        m = add(mul(c, c), mul(d, d))
        if not isT(m) and m == 0:
            raise Unsupported("complex division by zero")
        x, y = add(mul(a, c), mul(b, d)), sub(mul(b, c), mul(a, d))
        r = [div(x, m), div(y, m)]
        quot[(r[0], r[1])] = (a, b, c, d, x, y)
        quot[(neg(r[0]), neg(r[1]))] = (neg(a), neg(b), c, d, neg(x), neg(y))
        return r

    def c_exp(s, a, b):
        m = fn("exp", a)
        return [mul(m, fn("cos", b)), mul(m, fn("sin", b))]

    E["cabs"] = cplx(c_abs, 2)
    E["carg"] = cplx(c_arg, 2)
    E["csqrt"] = cplx(c_sqrt, 2)
    E["cexp"] = cplx(c_exp, 2)
    E["clog"] = cplx(lambda s, a, b: [fn("log", c_abs(s, a, b)), E["atan2"](s, None, [b, a], None)], 2)
    E["__muldc3"] = cplx(lambda s, a, b, c, d: [sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))], 4)
    E["__divdc3"] = cplx(c_div, 4)

    @reg("exp2", "llvm.exp2.f64")
    def _(s, fr, a, ins):
        return fn("pow", Fraction(2), a[0])

    @reg("exp10")
    def _(s, fr, a, ins):
        return fn("pow", Fraction(10), a[0])

    @reg("llvm.powi.f64.i32", "ldexp")
    def _(s, fr, a, ins):
        if isT(a[1]):
            raise Unsupported("powi")
        return powi(a[0], a[1])

    @reg("fabs", "llvm.fabs.f64", "llvm.fabs.f32")
    def _(s, fr, a, ins):
        x = a[0]
        if x.__class__ is str:
            return NAN if x == NAN else POS
        if x.__class__ is list:
            raise Unsupported("vector fabs")
        if isT(x):
            q = ex.quiet(s, le(Fraction(0), x))
            if q is True:
                return x
            if q is False:
                return neg(x)
        return absr(x)

    def qfloor(s, x):
        """floor, using the path condition to find the integer part"""
        f = floor(x)
        if isT(f):
            p = to_poly(f)
            for m, c in p.items():
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "floor":
                    r = m[0][0].args[0]
                    for k in (0, -1):
                        if ex.quiet(s, le(Fraction(k), r)) is True and ex.quiet(s, lt(r, Fraction(k + 1))) is True:
                            return add(sub(f, m[0][0]), k)
                    break
        return f
    ex.qfloor = qfloor

    @reg("floor", "llvm.floor.f64")
    def _(s, fr, a, ins):
        return a[0] if a[0].__class__ is str else toreal(qfloor(s, a[0]))

    @reg("ceil", "llvm.ceil.f64")
    def _(s, fr, a, ins):
        return a[0] if a[0].__class__ is str else toreal(neg(qfloor(s, neg(a[0]))))

    @reg("trunc", "llvm.trunc.f64")
    def _(s, fr, a, ins):
        return a[0] if a[0].__class__ is str else toreal(trunc(a[0]))

    @reg("round", "llvm.round.f64")
    def _(s, fr, a, ins):
        x = a[0]
        h = Fraction(1, 2)
        if x.__class__ is str:
            return x
        up = toreal(floor(add(x, h)))
        dn = toreal(neg(floor(add(neg(x), h))))
        return ite(le(Fraction(0), x), up, dn)

    @reg("rint", "nearbyint", "llvm.rint.f64", "llvm.nearbyint.f64")
    def _(s, fr, a, ins):
        x = a[0]
        if not isT(x):
            return Fraction(round(x))
        f = floor(x)
        fr_ = sub(x, toreal(f))
        h = Fraction(1, 2)
        return toreal(ite(lt(fr_, h), f, ite(lt(h, fr_), add(f, 1), ite(eq(imod(f, 2), 0), f, add(f, 1)))))

    @reg("fmod")
    def _(s, fr, a, ins):
        if a[0].__class__ is str or a[1].__class__ is str:
            return NAN
        return ex.fmod(s, a[0], a[1])

    @reg("llvm.fmuladd.f64", "llvm.fma.f64", "fma")
    def _(s, fr, a, ins):
        return ex.fbin(s, "fadd", ex.fbin(s, "fmul", a[0], a[1]), a[2])

    @reg("llvm.copysign.f64", "copysign")
    def _(s, fr, a, ins):
        x = absr(a[0])
        return ite(le(Fraction(0), a[1]), x, neg(x))

    @reg("fmin", "llvm.minnum.f64", "llvm.minimum.f64")
    def _(s, fr, a, ins):
        return ex.select(s, ex.fcmp(s, "olt", a[0], a[1]), a[0], a[1])

    @reg("fmax", "llvm.maxnum.f64", "llvm.maximum.f64")
    def _(s, fr, a, ins):
        return ex.select(s, ex.fcmp(s, "olt", a[0], a[1]), a[1], a[0])

    @reg("llvm.is.fpclass.f64", "llvm.is.fpclass.f32")
    def _(s, fr, a, ins):
        x, m = a
        if x.__class__ is str:
            return bool(m & {NAN: 3, POS: 512, NEGI: 4}[x])
        if m & ~0x207 == 0:
            return False
        if (m & 0x1f8) == 0x1f8:
            return True
        raise Unsupported("fpclass")

    @reg("finite", "isfinite")
    def _(s, fr, a, ins):
        return 0 if a[0].__class__ is str else 1

    # ---- integers
    def mm(lo, uns):
        def f(s, fr, a, ins):
            w = width(ins[2])
            x, y = ex.num(s, a[0], ins[2]), ex.num(s, a[1], ins[2])
            ux, uy = (ex.uns(s, x, w), ex.uns(s, y, w)) if uns else (x, y)
            c = le(ux, uy)
            q = ex.quiet(s, c)
            if q is None:
                return ite(c, x, y) if lo else ite(c, y, x)
            return (x if q else y) if lo else (y if q else x)
        return f

    for w in ("i64", "i32", "i16", "i8"):
        E["llvm.umin." + w] = mm(True, True)
        E["llvm.umax." + w] = mm(False, True)
        E["llvm.smin." + w] = mm(True, False)
        E["llvm.smax." + w] = mm(False, False)

        def _abs(s, fr, a, ins):
            return absi(ex, s, a[0])
        E["llvm.abs." + w] = _abs
        E["abs"] = E["labs"] = E["llabs"] = _abs

        def _usub(s, fr, a, ins):
            w_ = width(ins[2])
            x, y = ex.uns(s, a[0], w_), ex.uns(s, a[1], w_)
            return ite(le(y, x), sub(x, y), 0)
        E["llvm.usub.sat." + w] = _usub

        def _umulo(s, fr, a, ins):
            w_ = int(ins[2][1][1][1:])
            x, y = ex.uns(s, a[0], w_), ex.uns(s, a[1], w_)
            r = mul(x, y)
            if not isT(r):
                return [wrap(r, w_), r >= 1 << w_]
            ex.assumed.add("64-bit integer arithmetic does not overflow")
            return [r, False]
        E["llvm.umul.with.overflow." + w] = _umulo

    def _ctl(s, fr, a, ins):
        w_ = width(ins[2])
        if isT(a[0]):
            raise Unsupported("ctlz")
        x = a[0] & ((1 << w_) - 1)
        return w_ - x.bit_length()
    E["llvm.ctlz.i64"] = _ctl
    E["llvm.ctlz.i32"] = _ctl

    def _sadd(s, fr, a, ins):
        return [add(a[0], a[1]), False]
    E["llvm.uadd.with.overflow.i64"] = _sadd
    E["llvm.sadd.with.overflow.i64"] = _sadd

    # ---- memory
    @reg("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t")
    def _(s, fr, a, ins):
        return ex.alloc(s, a[0], "heap", "heap")

    @reg("calloc")
    def _(s, fr, a, ins):
        n = mul(a[0], a[1])
        p = ex.alloc(s, n, "heap", "heap")
        ex.set_mem(s, p, 0, n)
        return p

    @reg("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free")
    def _(s, fr, a, ins):
        p = ex.ptr_of(s, a[0])
        if p.r is None:
            return None
        if p.o != 0 and isT(p.o):
            raise Unsupported("free of symbolic pointer")
        r = ex.region(s, p)
        if r.dead or r.kind != "heap" or p.o != 0:
            ex.oblige(s, "memory: invalid or double free", "memory", False)
            raise PathEnd("free")
        if s.rec is not None:
            s.rec.on_free(s, p.r)
        r = ex.wregion(s, p.r)
        r.dead = True
        r.cells = {}
        r.below = None

    for w in ("p0.p0.i64", "p0.p0.i32"):
        for n in ("memcpy", "memmove"):
            def _cp(s, fr, a, ins):
                ex.copy_mem(s, ex.ptr_of(s, a[0]), ex.ptr_of(s, a[1]), a[2])
            E["llvm.%s.%s" % (n, w)] = _cp

    @reg("memcpy", "memmove")
    def _(s, fr, a, ins):
        ex.copy_mem(s, ex.ptr_of(s, a[0]), ex.ptr_of(s, a[1]), a[2])
        return a[0]

    @reg("llvm.memset.p0.i64", "memset")
    def _(s, fr, a, ins):
        ex.set_mem(s, ex.ptr_of(s, a[0]), a[1], a[2])
        return a[0]

    def nop(s, fr, a, ins):
        return None
    for n in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.assume", "llvm.invariant.start.p0", "llvm.invariant.end.p0", "llvm.experimental.noalias.scope.decl",
              "__cxa_end_catch", "__cxa_free_exception", "llvm.prefetch.p0", "llvm.stackrestore.p0", "llvm.stackrestore",
              "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "sched_yield", "llvm.donothing"):
        E[n] = nop

    @reg("llvm.stacksave.p0", "llvm.stacksave")
    def _(s, fr, a, ins):
        return NULL

    def z(s, fr, a, ins):
        return 0
    for n in ("__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_rwlock_rdlock",
              "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy",
              "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_broadcast",
              "pthread_cond_signal", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "puts", "printf", "fflush"):
        E[n] = z

    @reg("__cxa_guard_acquire")
    def _(s, fr, a, ins):
        p = ex.ptr_of(s, a[0])
        v = ex.load(s, p, 1, "i8")
        return 0 if v == 1 else 1

    @reg("__cxa_guard_release")
    def _(s, fr, a, ins):
        ex.store(s, ex.ptr_of(s, a[0]), 1, 1)

    @reg("__cxa_guard_abort")
    def _(s, fr, a, ins):
        pass

    # ---- exceptions
    @reg("__cxa_allocate_exception")
    def _(s, fr, a, ins):
        return ex.alloc(s, add(a[0], 64), "exception", "heap")

    @reg("__cxa_throw")
    def _(s, fr, a, ins):
        return ("throw!", (a[0], a[1]))

    @reg("__cxa_rethrow", "_Unwind_Resume")
    def _(s, fr, a, ins):
        return ("throw!", s.exc)

    @reg("__cxa_begin_catch", "__cxa_get_exception_ptr")
    def _(s, fr, a, ins):
        return a[0]

    @reg("llvm.eh.typeid.for.p0", "llvm.eh.typeid.for")
    def _(s, fr, a, ins):
        return ex.typeid(a[0])

    def thrower(s, fr, a, ins):
        return ("throw!", (ex.alloc(s, 64, "exception", "heap"), None))

    for n in ("_ZSt20__throw_length_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv",
              "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc",
              "_ZSt16__throw_bad_castv", "_ZSt20__throw_system_errori", "_ZSt25__throw_bad_function_callv",
              "_ZSt21__throw_runtime_errorPKc", "_ZSt22__throw_overflow_errorPKc", "__cxa_throw_bad_array_new_length",
              "_ZSt21__throw_bad_exceptionv", "__cxa_bad_cast", "__cxa_bad_typeid"):
        E[n] = thrower

    @reg("_ZSt9terminatev", "abort", "__cxa_pure_virtual", "exit", "llvm.trap", "__clang_call_terminate", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__assert_fail")
    def _(s, fr, a, ins):
        ex.oblige(s, "no abort / terminate", "memory", False)
        raise PathEnd("abort")

    # exception objects
    def excctor(s, fr, a, ins):
        return None
    for n in ("invalid_argument", "runtime_error", "out_of_range", "logic_error", "length_error", "domain_error", "overflow_error"):
        for c in ("C1EPKc", "C2EPKc", "D1Ev", "D2Ev", "D0Ev", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"):
            E["_ZNSt%d%s%s" % (len(n), n, c)] = excctor

    # ---- libstdc++ containers (out of line parts)
    # string streams: the put area of the string buffer (8 bytes behind the
    # ostream part) holds the text; only integers, characters and strings
    def ss_init(size, ovt):
        def f(s, fr, a, ins):
            p = ex.ptr_of(s, a[0])
            ex.set_mem(s, p, 0, size)
            ex.store(s, p, 8, Ptr("$ssvt%d" % (128 if ovt else 112), 64))
            if ovt:
                ex.store(s, Ptr(p.r, add(p.o, 16)), 8, Ptr("$ssvt112", 64))
            return None
        return f
    E["_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev"] = ss_init(392, True)
    E["_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev"] = ss_init(376, False)
    for n in ("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev", "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev",
              "_ZNSt6localeD1Ev", "_ZNSt8ios_baseD2Ev"):
        E[n] = nop

    def ss_put(s, o, txt):
        beg = ex.ptr_of(s, ex.load(s, Ptr(o.r, add(o.o, 8 + 32)), 8, "p"))
        cur = ex.ptr_of(s, ex.load(s, Ptr(o.r, add(o.o, 8 + 40)), 8, "p"))
        old = []
        if beg.r is not None:
            n = sub(cur.o, beg.o)
            if isT(n):
                raise Unsupported("string stream of symbolic length")
            old = [ex.load(s, Ptr(beg.r, add(beg.o, i)), 1, "i8") for i in range(n)]
        new = old + txt
        b = ex.alloc(s, max(len(new), 1), "sstream", "heap")
        for i, c in enumerate(new):
            ex.store(s, Ptr(b.r, i), 1, c)
        ex.store(s, Ptr(o.r, add(o.o, 8 + 32)), 8, b)
        ex.store(s, Ptr(o.r, add(o.o, 8 + 40)), 8, Ptr(b.r, len(new)))
        return o

    def ss_num(signed):
        def f(s, fr, a, ins):
            o = ex.ptr_of(s, a[0])
            if isT(a[1]):
                raise Unsupported("symbolic number written to a stream")
            v = int(a[1])
            if not signed:
                v &= (1 << 64) - 1
            return ss_put(s, o, [ord(c) for c in str(v)])
        return f
    def is_ss(s, o):
        return o.r != "_ZSt4cout" and not (o.r.__class__ is str)
    def guard(h, old):
        def f(s, fr, a, ins):
            o = ex.ptr_of(s, a[0])
            if is_ss(s, o):
                return h(s, fr, a, ins)
            if old is None:
                return o
            return old(s, fr, a, ins)
        return f
    for n, h in (("_ZNSo9_M_insertImEERSoT_", ss_num(False)), ("_ZNSo9_M_insertIlEERSoT_", ss_num(True)),
                 ("_ZNSo9_M_insertIyEERSoT_", ss_num(False)), ("_ZNSo9_M_insertIxEERSoT_", ss_num(True)), ("_ZNSolsEi", ss_num(True)),
                 ("_ZNSo3putEc", lambda s, fr, a, ins: ss_put(s, ex.ptr_of(s, a[0]), [a[1]])),
                 ("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l",
                  lambda s, fr, a, ins: ss_put(s, ex.ptr_of(s, a[0]), [ex.load(s, Ptr(ex.ptr_of(s, a[1]).r, add(ex.ptr_of(s, a[1]).o, i)), 1, "i8") for i in range(int(a[2]))]))):
        E[n] = guard(h, E.get(n))

    # out-of-line members of std::string: ptr@0, length@8, local buffer or capacity@16
    S = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"

    def chars(s, p, n):
        if isT(n):
            raise Unsupported("string of symbolic length")
        return [ex.load(s, Ptr(p.r, add(p.o, i)), 1, "i8") for i in range(n)]

    def str_get(s, p):
        return chars(s, ex.ptr_of(s, ex.load(s, p, 8, "p")), ex.load(s, Ptr(p.r, add(p.o, 8)), 8, "i64"))

    def str_set(s, p, new, room=0):
        d = ex.ptr_of(s, ex.load(s, p, 8, "p"))
        local = d.r == p.r and d.o == add(p.o, 16)
        cap = 15 if local else ex.load(s, Ptr(p.r, add(p.o, 16)), 8, "i64")
        if isT(cap):
            raise Unsupported("string of symbolic capacity")
        room = max(room, len(new))
        if room > cap:
            cap = max(room, 2 * cap)
            if not local:
                E["_ZdlPv"](s, None, [d], None)
            d = ex.alloc(s, cap + 1, "heap", "heap")
            ex.store(s, p, 8, d)
            ex.store(s, Ptr(p.r, add(p.o, 16)), 8, cap)
        for i, c in enumerate(new + [0]):
            ex.store(s, Ptr(d.r, add(d.o, i)), 1, c)
        ex.store(s, Ptr(p.r, add(p.o, 8)), 8, len(new))
        return p

    @reg(S + "10_M_replaceEmmPKcm")
    def _(s, fr, a, ins):
        p, old = ex.ptr_of(s, a[0]), str_get(s, ex.ptr_of(s, a[0]))
        if isT(a[1]) or isT(a[2]):
            raise Unsupported("string of symbolic length")
        return str_set(s, p, old[:a[1]] + chars(s, ex.ptr_of(s, a[3]), a[4]) + old[a[1] + a[2]:])

    @reg(S + "9_M_appendEPKcm")
    def _(s, fr, a, ins):
        p = ex.ptr_of(s, a[0])
        return str_set(s, p, str_get(s, p) + chars(s, ex.ptr_of(s, a[1]), a[2]))

    @reg(S + "9_M_assignERKS4_")
    def _(s, fr, a, ins):
        str_set(s, ex.ptr_of(s, a[0]), str_get(s, ex.ptr_of(s, a[1])))

    @reg(S + "7reserveEm")
    def _(s, fr, a, ins):
        if isT(a[1]):
            raise Unsupported("string of symbolic length")
        p = ex.ptr_of(s, a[0])
        str_set(s, p, str_get(s, p), a[1])

    @reg(S + "9_M_createERmm")
    def _(s, fr, a, ins):
        q = ex.ptr_of(s, a[1])
        cap = ex.load(s, q, 8, "i64")
        if isT(cap) or isT(a[2]):
            raise Unsupported("string of symbolic length")
        if a[2] < cap < 2 * a[2]:
            cap = 2 * a[2]
            ex.store(s, q, 8, cap)
        return ex.alloc(s, cap + 1, "heap", "heap")

    # _Rb_tree_node_base: color@0(4) parent@8 left@16 right@24
    def ld(s, p, o):
        return ex.ptr_of(s, ex.load(s, Ptr(p.r, add(p.o, o)), 8, "p"))

    def st(s, p, o, v):
        ex.store(s, Ptr(p.r, add(p.o, o)), 8, v)

    def pe(a, b):
        return a.r == b.r and a.o == b.o

    def isnull(a):
        return a.r is None and a.o == 0

    @reg("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
    def _(s, fr, a, ins):
        x = ex.ptr_of(s, a[0])
        r = ld(s, x, 24)
        if not isnull(r):
            x = r
            while True:
                l = ld(s, x, 16)
                if isnull(l):
                    return x
                x = l
        y = ld(s, x, 8)
        while pe(x, ld(s, y, 24)):
            x = y
            y = ld(s, y, 8)
        if not pe(ld(s, x, 24), y):
            x = y
        return x

    @reg("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
    def _(s, fr, a, ins):
        x = ex.ptr_of(s, a[0])
        color = ex.load(s, x, 4, "i32")
        par = ld(s, x, 8)
        if color == 0 and not isnull(par) and pe(ld(s, par, 8), x):
            return ld(s, x, 24)
        l = ld(s, x, 16)
        if not isnull(l):
            y = l
            while True:
                r = ld(s, y, 24)
                if isnull(r):
                    return y
                y = r
        y = par
        while pe(x, ld(s, y, 16)):
            x = y
            y = ld(s, y, 8)
        return y

    # insertion keeps an (unbalanced) binary search tree: order, not balance,
    # is what std::map's behaviour depends on
    @reg("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
    def _(s, fr, a, ins):
        left, x, p, h = a
        if isT(left):
            left = ex.decide(s, left)
        x, p, h = [ex.ptr_of(s, v) for v in (x, p, h)]
        st(s, x, 8, p)
        st(s, x, 16, NULL)
        st(s, x, 24, NULL)
        ex.store(s, x, 4, 1)
        if left:
            st(s, p, 16, x)
            if pe(p, h):
                st(s, h, 8, x)
                st(s, h, 24, x)
            elif pe(p, ld(s, h, 16)):
                st(s, h, 16, x)
        else:
            st(s, p, 24, x)
            if pe(p, ld(s, h, 24)):
                st(s, h, 24, x)

    @reg("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
    def _(s, fr, a, ins):
        zn, h = ex.ptr_of(s, a[0]), ex.ptr_of(s, a[1])
        # recompute in-order list without z, relink as a right spine
        order = []

        def walk(n):
            if isnull(n):
                return
            walk(ld(s, n, 16))
            order.append(n)
            walk(ld(s, n, 24))
        walk(ld(s, h, 8))
        order = [n for n in order if not pe(n, zn)]
        prev = h
        for n in order:
            st(s, n, 16, NULL)
            st(s, n, 24, NULL)
            st(s, n, 8, prev)
            ex.store(s, n, 4, 1)
            if not pe(prev, h):
                st(s, prev, 24, n)
            prev = n
        if order:
            st(s, h, 8, order[0])
            st(s, h, 16, order[0])
            st(s, h, 24, order[-1])
        else:
            st(s, h, 8, NULL)
            st(s, h, 16, h)
            st(s, h, 24, h)
        return zn

    @reg("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
    def _(s, fr, a, ins):
        n, pos = ex.ptr_of(s, a[0]), ex.ptr_of(s, a[1])
        prev = ld(s, pos, 8)
        st(s, n, 0, pos)
        st(s, n, 8, prev)
        st(s, prev, 0, n)
        st(s, pos, 8, n)

    @reg("_ZNSt8__detail15_List_node_base9_M_unhookEv")
    def _(s, fr, a, ins):
        n = ex.ptr_of(s, a[0])
        nx, pv = ld(s, n, 0), ld(s, n, 8)
        st(s, pv, 0, nx)
        st(s, nx, 8, pv)

    @reg("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_")
    def _(s, fr, a, ins):
        t, first, last = [ex.ptr_of(s, x) for x in a]
        if pe(t, last):
            return
        lp, fp, tp = ld(s, last, 8), ld(s, first, 8), ld(s, t, 8)
        st(s, lp, 0, t)
        st(s, fp, 0, last)
        st(s, tp, 0, first)
        st(s, t, 8, lp)
        st(s, last, 8, fp)
        st(s, first, 8, tp)

    @reg("__dynamic_cast")
    def _(s, fr, a, ins):
        p = ex.ptr_of(s, a[0])
        if isnull(p):
            return NULL
        vt = ex.load(s, p, 8, "p")
        top = ex.load(s, Ptr(vt.r, vt.o - 16), 8, "i64")
        ti = ex.load(s, Ptr(vt.r, vt.o - 8), 8, "p")
        if top.__class__ is Ptr and top.r is None:
            top = top.o
        obj = Ptr(p.r, add(p.o, top))
        off = find_base(ex, s, ti, a[2])
        return NULL if off is None else Ptr(obj.r, add(obj.o, off))

    @reg("memcmp", "strcmp", "bcmp")
    def _(s, fr, a, ins):
        p, q = ex.ptr_of(s, a[0]), ex.ptr_of(s, a[1])
        if len(a) > 2:
            if isT(a[2]):
                raise Unsupported("memcmp length")
            for i in range(a[2]):
                x = ex.load(s, Ptr(p.r, add(p.o, i)), 1, "i8")
                y = ex.load(s, Ptr(q.r, add(q.o, i)), 1, "i8")
                e = eq(x, y)
                if isT(e):
                    e = ex.decide(s, e)
                if not e:
                    if isT(x) or isT(y):
                        return 1 if ex.decide(s, lt(y, x)) else -1
                    return (x & 255) - (y & 255)
            return 0
        x, y = cstr(ex, s, a[0]), cstr(ex, s, a[1])
        return (x > y) - (x < y)

    @reg("strlen")
    def _(s, fr, a, ins):
        return len(cstr(ex, s, a[0]))

    return E


def find_base(ex, s, ti, want):
    """offset of base `want` in the class described by type_info ti"""
    wn = want.r if want.__class__ is Ptr else getattr(want, "name", None)
    if ti.__class__ is not Ptr:
        return None
    if ti.r == wn:
        return 0
    g = ex.m.glob(ti.r)
    if g is None or not g.init:
        return None
    cells = {o: (sz, ex.const(c)) for o, sz, c in g.cells}
    kind = repr(cells[0][1])
    if "si_class" in kind:
        return find_base(ex, s, cells[16][1], want)
    if "vmi_class" in kind:
        n = cells[20][1] if 20 in cells else 0
        for i in range(n):
            b = cells[24 + 16 * i][1]
            fl = cells[32 + 16 * i][1] if 32 + 16 * i in cells else 0
            if fl & 1:
                continue
            r = find_base(ex, s, b, want)
            if r is not None:
                return r + (fl >> 8)
    return None


def absi(ex, s, x):
    if not isT(x):
        return abs(x)
    q = ex.quiet(s, le(0, x))
    if q is None:
        return ite(le(0, x), x, neg(x))
    return x if q else neg(x)


NOOP = ("_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt16__ostream_insert", "_ZSt5flush", "_ZNSolsE", "_ZNSt8ios_base", "_ZNSt9basic_ios",
        "_ZNKSt5ctypeIcE13_M_widen_init", "_ZNSt6locale", "_ZNSt7__cxx1115basic_stringbuf", "_ZNSt7__cxx1118basic_stringstream",
        "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt9exception", "_ZNKSt9exception", "_ZNSt6thread", "_ZNSt15basic_streambuf", "_ZN6netCDF5NcVarC", "_ZN6netCDF5NcVarD", "_ZN6netCDF6NcFileD", "_ZN6netCDF7NcGroupD")


def pattern(ex, name):
    if name.startswith(NOOP):
        def f(s, fr, a, ins):
            ex.externs.add("stream output")
            if ins[2] == "p":
                return a[0]
            return 0 if ins[2] != "v" else None
        ex.ext[name] = f
        return f
    return None
