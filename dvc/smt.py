"""Terms -> z3, with the trusted axioms of the real functions instantiated at
the applications that occur in the query."""
from fractions import Fraction
import z3
from term import *

PI_LO = Fraction(3141592653589793, 10**15)
PI_HI = Fraction(3141592653589794, 10**15)


def zq(c):
    return z3.Q(c.numerator, c.denominator) if isinstance(c, Fraction) else z3.IntVal(c)


def over_pi(a):
    """a / pi when every monomial of a has the factor pi"""
    if not isT(a) or a is PI:
        return None
    p = to_poly(a)
    out = {}
    for m, c in p.items():
        d = dict(m)
        if d.get(PI) != 1:
            return None
        del d[PI]
        out[tuple(sorted(d.items(), key=lambda ae: ae[0].id))] = c
    return from_poly(out, "R")


class Tr:
    """translator; linear=True abstracts every nonlinear monomial"""

    def __init__(self, linear):
        self.linear = linear
        self.memo = {}
        self.axioms = []  # sink of the atom being translated
        self.ax_of = {}  # atom key -> its axioms
        self.vars = {}
        self.extra = {}
        self.apps = []
        self.ufs = {}
        self.keep = []

    def t(self, x):
        if not isT(x):
            if isinstance(x, bool):
                return z3.BoolVal(x)
            return zq(x)
        r = self.memo.get(x.id)
        if r is None:
            save = self.axioms
            self.axioms = []
            r = self.tr(x)
            self.memo[x.id] = r
            self.keep.append(x)
            if self.axioms:
                self.ax_of.setdefault(x.id, []).extend(self.axioms)
            self.axioms = save
        return r

    def closure(self, roots):
        """{atom key: axioms} of everything reachable from the roots, following
        the atoms the axioms themselves introduce (recorded in extra)"""
        out = {}
        seen = set()
        work = [r for r in roots if isT(r)]
        if PI.id in self.ax_of:
            out[PI.id] = self.ax_of[PI.id]
        while work:
            for x in subterms(work):
                if x in seen:
                    continue
                seen.add(x)
                if x.id in self.ax_of:
                    out[x.id] = self.ax_of[x.id]
                if x.op == "poly":
                    for c, m in x.args:
                        key = tuple((a.id, e) for a, e in m)
                        if key in self.ax_of:
                            out[key] = self.ax_of[key]
            work = [y for x in seen for y in self.extra.get(x.id, ()) if isT(y) and y not in seen]
        return out

    def nv(self, name, sort):
        return {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[sort](name)

    def mono(self, m, sort):
        if self.linear and (len(m) > 1 or (m and m[0][1] != 1)):
            key = tuple((a.id, e) for a, e in m)
            r = self.vars.get(key)
            if r is None:
                save = self.axioms
                self.axioms = []
                r = self.nv("m!" + "_".join("%d^%d" % k for k in key), sort)
                self.vars[key] = r
                self.keep.append(m)
                # signs
                if all(e % 2 == 0 for a, e in m):
                    self.axioms.append(r >= 0)
                elif sort == "R" or len(m) <= 3:
                    self.sign_axiom(m, r)
                if len(m) == 2 and sort == "R":
                    self.angle_over_pi(m, r)
                # upper bounds of products of bounded atoms (|x|<=1)
                if all(e > 0 and self.unit(a) for a, e in m):
                    self.axioms += [r <= 1, r >= -1]
                self.ax_of[key] = self.axioms
                self.axioms = save
            return r
        r = None
        for a, e in m:
            za = self.t(a)
            for _ in range(abs(e)):
                if e > 0:
                    r = za if r is None else r * za
            if e < 0:
                den = za
                for _ in range(-e - 1):
                    den = den * za
                r = (z3.RealVal(1) if r is None else r) / den
                self.axioms.append(za != 0)
        return r

    def angle_over_pi(self, m, r):
        """bounds of atan2(..)/pi and friends"""
        d = dict(m)
        if d.get(PI) != -1:
            return
        a = [a for a, e in m if a is not PI][0]
        if d[a] != 1 or a.op != "app":
            return
        n = a.args[0]
        h = z3.Q(1, 2)
        if n == "atan2":
            self.axioms += [r <= 1, r >= -1]
        elif n == "acos":
            self.axioms += [r <= 1, r >= 0]
        elif n in ("asin", "atan"):
            self.axioms += [r <= h, r >= -h]

    def unit(self, a):
        return a.op == "app" and a.args[0] in ("sin", "cos")

    def sign_axiom(self, m, r):
        odd = [a for a, e in m if e % 2]
        if any(e < 0 for a, e in m) and len(m) == 1 and len(odd) == 1:
            za = self.t(odd[0])
            self.axioms += [z3.Implies(za > 0, r > 0), z3.Implies(za < 0, r < 0), za != 0]
            return
        even = [a for a, e in m if e % 2 == 0]
        if len(odd) == 1:
            za = self.t(odd[0])
            zz = [self.t(a) == 0 for a in even if dict(m)[a] > 0]
            self.axioms += [z3.Implies(za > 0, r >= 0), z3.Implies(za < 0, r <= 0), z3.Implies(za == 0, r == 0)]
            if not zz:
                self.axioms += [z3.Implies(za > 0, r > 0), z3.Implies(za < 0, r < 0)]
        elif len(odd) == 2:
            x, y = self.t(odd[0]), self.t(odd[1])
            self.axioms += [z3.Implies(z3.And(x >= 0, y >= 0), r >= 0), z3.Implies(z3.And(x <= 0, y <= 0), r >= 0),
                            z3.Implies(z3.And(x >= 0, y <= 0), r <= 0), z3.Implies(z3.And(x <= 0, y >= 0), r <= 0)]
            if not even:
                self.axioms += [z3.Implies(z3.And(x > 0, y > 0), r > 0), z3.Implies(z3.And(x < 0, y < 0), r > 0),
                                z3.Implies(z3.And(x > 0, y < 0), r < 0), z3.Implies(z3.And(x < 0, y > 0), r < 0)]

    def tr(self, x):
        op = x.op
        if op == "var":
            r = self.nv(x.args[0], x.sort)
            if x is PI:
                self.axioms += [r > zq(PI_LO), r < zq(PI_HI)]
            return r
        if op == "poly":
            r = None
            for c, m in x.args:
                z = zq(c) if m == () else (self.mono(m, x.sort) if c == 1 else zq(c if x.sort == "I" else Fraction(c)) * self.mono(m, x.sort))
                r = z if r is None else r + z
            return r
        if op == "pp":
            return self.t(x.args[0])
        if op == "le0":
            return self.t(x.args[0]) <= 0
        if op == "lt0":
            return self.t(x.args[0]) < 0
        if op == "eq0":
            return self.t(x.args[0]) == 0
        if op == "not":
            return z3.Not(self.t(x.args[0]))
        if op == "and":
            return z3.And(*[self.t(a) for a in x.args])
        if op == "or":
            return z3.Or(*[self.t(a) for a in x.args])
        if op == "ite":
            return z3.If(self.t(x.args[0]), self.t(x.args[1]), self.t(x.args[2]))
        if op == "abs":
            a = self.t(x.args[0])
            return z3.If(a >= 0, a, -a)
        if op == "toreal":
            return z3.ToReal(self.t(x.args[0]))
        if op == "floor":
            r = z3.Int("floor!%d" % x.id)
            a = self.t(x.args[0])
            self.axioms += [z3.ToReal(r) <= a, a < z3.ToReal(r) + 1]
            return r
        if op == "idiv":
            r = z3.Int("idiv!%d" % x.id)
            a = self.t(x.args[0])
            k = x.args[1]
            self.axioms += [k * r <= a, a < k * r + k]
            return r
        if op == "app":
            return self.app(x)
        raise NotImplementedError(op)

    def app(self, x):
        name = x.args[0]
        args = x.args[1:]
        if self.linear or x.sort == "B" or name in MATHFN:
            r = self.nv("%s!%d" % (name, x.id), x.sort)
        else:
            k = (name, len(args))
            f = self.ufs.get(k)
            if f is None:
                srt = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
                f = z3.Function(name, *([srt[sort_of(a)] for a in args] + [srt[x.sort]]))
                self.ufs[k] = f
            return f(*[self.t(a) for a in args])
        self.memo[x.id] = r
        self.apps.append((x, r))
        A = self.axioms
        if name in MATHFN:
            a = args[0]
            za = self.t(a)
            if name in ("sin", "cos"):
                A += [r <= 1, r >= -1]
                q = over_pi(a)
                if q is not None:
                    zq_ = self.t(q)
                    self.extra.setdefault(x.id, []).append(q)
                    h = z3.Q(1, 2)
                    if name == "cos":
                        A += [z3.Implies(z3.And(zq_ > -h, zq_ < h), r > 0), z3.Implies(z3.And(zq_ >= -h, zq_ <= h), r >= 0)]
                    else:
                        A += [z3.Implies(z3.And(zq_ >= 0, zq_ <= 1), r >= 0), z3.Implies(z3.And(zq_ > 0, zq_ < 1), r > 0),
                              z3.Implies(z3.And(zq_ <= 0, zq_ >= -1), r <= 0)]
                other = fn("cos" if name == "sin" else "sin", a)
                if not self.linear:
                    # pythagoras
                    if other.id not in self.memo:
                        self.t(other)
                    self.extra.setdefault(x.id, []).append(other)
                    if name == "sin":
                        zo = self.t(other)
                        A.append(r * r + zo * zo == 1)
                if name == "sin":
                    A += [z3.Implies(z3.And(za >= 0, za <= self.t(PI)), r >= 0), z3.Implies(z3.And(za > 0, za < self.t(PI)), r > 0),
                          z3.Implies(z3.And(za <= 0, za >= -self.t(PI)), r <= 0),
                          z3.Implies(za >= 0, r <= za), z3.Implies(za <= 0, r >= za)]
                else:
                    h = self.t(PI) / 2
                    A += [z3.Implies(z3.And(za >= -h, za <= h), r > 0)]
            elif name == "sqrt":
                A += [r >= 0, z3.Implies(za > 0, r > 0), z3.Implies(za == 0, r == 0),
                      z3.Implies(za <= 1, r <= 1), z3.Implies(za >= 1, r >= 1)]
                if not self.linear:
                    A += [z3.Implies(za >= 0, r * r == za)]
            elif name == "exp":
                A += [r > 0, z3.Implies(za <= 0, r <= 1), z3.Implies(za >= 0, r >= 1), r >= 1 + za]
            elif name in ("log", "log10", "log2"):
                A += [z3.Implies(za >= 1, r >= 0), z3.Implies(z3.And(za > 0, za <= 1), r <= 0),
                      z3.Implies(za > 1, r > 0), z3.Implies(z3.And(za > 0, za < 1), r < 0)]
            elif name == "pow":
                zb = self.t(args[1])
                A += [z3.Implies(za > 0, r > 0), z3.Implies(za >= 0, r >= 0)]
                A += [z3.Implies(z3.And(za >= 1, zb >= 0), r >= 1), z3.Implies(z3.And(za >= 1, zb <= 0), r <= 1)]
                A += [z3.Implies(z3.And(za > 0, za <= 1, zb >= 0), r <= 1)]
                e = args[1]
                if isinstance(e, Fraction) and e.denominator <= 6 and abs(e.numerator) <= 6 and not self.linear:
                    def pw(z, n):
                        q = z
                        for _ in range(n - 1):
                            q = q * z
                        return q
                    n, d = e.numerator, e.denominator
                    if n > 0:
                        A += [z3.Implies(za >= 0, pw(r, d) == pw(za, n))]
                    elif n < 0:
                        A += [z3.Implies(za > 0, pw(r, d) * pw(za, -n) == 1)]
            elif name == "acos":
                A += [r >= 0, r <= self.t(PI)]
            elif name == "asin":
                A += [r >= -self.t(PI) / 2, r <= self.t(PI) / 2, z3.Implies(za >= 0, r >= 0), z3.Implies(za <= 0, r <= 0),
                      z3.Implies(za > 0, r > 0)]
            elif name == "atan":
                A += [r >= -self.t(PI) / 2, r <= self.t(PI) / 2]
            elif name == "atan2":
                zx = self.t(args[1])
                A += [r >= -self.t(PI), r <= self.t(PI), z3.Implies(za > 0, r > 0), z3.Implies(za < 0, r < 0),
                      z3.Implies(z3.And(za == 0, zx >= 0), r == 0)]
            elif name == "cosh":
                A += [r >= 1]
        return r



class Feas:
    """incremental feasibility of path conditions (linear abstraction)"""

    def __init__(self, timeout=500):
        self.timeout = timeout
        self.reset()
        self.cache = {}
        self.n = 0

    def reset(self):
        self.tr = Tr(True)
        self.s = z3.Solver()
        self.s.set("timeout", self.timeout)
        self.stack = []
        self.have = []

    def push(self, c):
        self.s.push()
        z = self.tr.t(c)
        self.s.add(z)
        new = {}
        for k, ax in self.tr.closure([c]).items():
            if not any(k in h for h in self.have):
                new[k] = 1
                self.s.add(*ax)
        self.have.append(new)
        self.stack.append(c)

    def sync(self, pc):
        i = 0
        st = self.stack
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if i < len(st):
            self.s.pop(len(st) - i)
            del st[i:]
            del self.have[i:]
        for c in pc[i:]:
            self.push(c)

    def check(self, pc, c):
        """is pc & c satisfiable (True when unknown)"""
        key = (tuple(x.id for x in pc), c.id)
        r = self.cache.get(key)
        if r is not None:
            return r
        self.n += 1
        if self.n % 1000 == 0:
            self.reset()
        self.sync(pc)
        self.push(c)
        res = self.s.check() != z3.unsat
        self.s.pop()
        self.stack.pop()
        self.have.pop()
        self.cache[key] = res
        return res
