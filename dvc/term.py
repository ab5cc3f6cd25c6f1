"""Hash-consed terms over Int / Real / Bool with canonical polynomials.

Constants are plain Python values: bool (B), int (I), Fraction (R).
Every arithmetic term is a canonical polynomial: a sum of coeff * monomial, a
monomial being a product of atoms with (possibly negative) integer exponents.
Machine doubles are treated as mathematical reals (stated in the evidence).
"""
from fractions import Fraction
import math, sys
sys.setrecursionlimit(20000)

EXPAND_LIMIT = 600


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_nid = [0]


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        _nid[0] += 1
        t.id = _nid[0]
        t._fv = None
        _tab[key] = t
    return t


def isT(x):
    return x.__class__ is T


def sort_of(x):
    if isT(x):
        return x.sort
    if isinstance(x, bool):
        return "B"
    if isinstance(x, int):
        return "I"
    if isinstance(x, Fraction):
        return "R"
    raise TypeError("sort_of %r" % (x,))


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = [0]


PI = var("pi!", "R")
_pitab = {}


def _mkpi():
    import itertools
    for den in (1, 2, 3, 4, 6, 8, 12, 16, 180, 360, 720, 200, 1000, 10800, 648000):
        for k in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20, 24, 32, 40):
            q = Fraction(k, den)
            for x in (math.pi * k / den, math.pi / den * k, float(k) / den * math.pi):
                for s in (1, -1):
                    _pitab.setdefault(s * x, ("m", s * q))
    for c in (1, 2, 4, 10, 20, 45, 90, 100, 180, 360, 10800, 648000, Fraction(1, 2), Fraction(1, 4), Fraction(1, 8)):
        for s in (1, -1):
            _pitab.setdefault(s * float(c) / math.pi, ("d", s * Fraction(c)))
    for c, x in ((2, 2 / math.sqrt(math.pi)),):
        pass


def pi_const(d):
    """a double constant that is the rounding of q*pi or c/pi is read as that real"""
    if not _pitab:
        _mkpi()
    h = _pitab.get(d)
    if h is None:
        return None
    if h[0] == "m":
        return mul(h[1], PI)
    return mul(h[1], inv(PI))


def fresh(prefix, sort):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


EMPTY = frozenset()


def fv(x):
    """free variables (frozenset of var terms)"""
    if not isT(x):
        return EMPTY
    if x._fv is None:
        if x.op == "var":
            x._fv = frozenset((x,))
        elif x.op == "poly":
            s = set()
            for c, m in x.args:
                for a, e in m:
                    s |= fv(a)
            x._fv = frozenset(s)
        else:
            s = set()
            for a in x.args:
                s |= fv(a)
            x._fv = frozenset(s)
    return x._fv


# ---------------------------------------------------------------- polynomials
# internal form: dict monomial -> coeff ; monomial = tuple((atom,exp)...) sorted


def to_poly(x):
    if not isT(x):
        return {(): x} if x != 0 else {}
    if x.op == "poly":
        return {m: c for c, m in x.args}
    return {((x, 1),): (1 if x.sort == "I" else Fraction(1))}


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(p, sort):
    if not p:
        return 0 if sort == "I" else Fraction(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return c if sort == "I" else Fraction(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "pp":  # parenthesised polynomial with exponent 1
                return a.args[0]
            return a
    items = tuple(sorted(((c, m) for m, c in p.items()), key=lambda cm: mono_key(cm[1])))
    return mk("poly", items, sort)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
    # a simplification that is always valid: sqrt(a)^2 -> a is done at proof time
    return r


def add(a, b):
    if not isT(a) and not isT(b):
        return a + b
    if not isT(a) and a == 0:
        return b
    if not isT(b) and b == 0:
        return a
    s = a.sort if isT(a) else b.sort
    return from_poly(padd(to_poly(a), to_poly(b)), s)


def sub(a, b):
    if not isT(a) and not isT(b):
        return a - b
    if a is b:
        return 0 if a.sort == "I" else Fraction(0)
    s = a.sort if isT(a) else b.sort
    return from_poly(padd(to_poly(a), to_poly(b), -1), s)


def neg(a):
    if not isT(a):
        return -a
    return from_poly({m: -c for m, c in to_poly(a).items()}, a.sort)


def mul(a, b):
    if not isT(a) and not isT(b):
        return a * b
    s = a.sort if isT(a) else b.sort
    if not isT(a):
        if a == 0:
            return a
        if a == 1:
            return b
        return from_poly({m: a * c for m, c in to_poly(b).items()}, s)
    if not isT(b):
        return mul(b, a)
    # c?1:0 style integers/reals distribute nothing; keep
    pa, pb = to_poly(a), to_poly(b)
    if s == "R" and len(pa) > 1 and len(pb) > 1 and len(pa) * len(pb) > EXPAND_LIMIT:
        c1, qa = paren(a)
        c2, qb = paren(b)
        return mul(c1 * c2, from_poly({mono_mul(((qa, 1),), ((qb, 1),)): Fraction(1)}, "R"))
    return from_poly(pmul(pa, pb), s)


def paren(a):
    """multi-term polynomial -> (content, atom) with normalised leading coeff"""
    lead = a.args[0][0]
    if lead != 1:
        a = from_poly({m: c / lead for c, m in a.args}, "R")
    if not isT(a) or a.op != "poly":
        return lead, a
    return lead, mk("pp", (a,), "R")


def inv(b):
    """1/b over the reals (b assumed non-zero)"""
    if not isT(b):
        return 1 / b
    p = to_poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / Fraction(c)}, "R")
    # pull out common monomial factor
    com = None
    for m in p:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {x: min(e, d[x]) for x, e in com.items() if x in d and (e > 0) == (d[x] > 0) and e > 0}
    if com:
        cm = tuple(sorted(com.items(), key=lambda ae: ae[0].id))
        icm = tuple((x, -e) for x, e in cm)
        rest = from_poly({mono_mul(m, icm): c for m, c in p.items()}, "R")
        return mul(from_poly({icm: Fraction(1)}, "R"), inv(rest))
    c, q = paren(b)
    return from_poly({((q, -1),): 1 / c}, "R")


def div(a, b):
    if not isT(a) and not isT(b):
        if b == 0:
            return fresh("div0", "R")
        return Fraction(a) / b
    if not isT(b) and b == 0:
        return fresh("div0", "R")
    if not isT(a) and a == 0:
        return Fraction(0)
    if a is b:
        return Fraction(1)
    if isT(a) and isT(b) and b.op == "poly" and a.op == "poly" and len(a.args) <= 80 and len(b.args) <= 12:
        q = exact_div(to_poly(a), to_poly(b))
        if q is not None:
            return from_poly(q, "R")
    return mul(a, inv(b))


def exact_div(pa, pb):
    """pa / pb when it divides exactly (multivariate, graded by atom ids)"""
    if len(pb) < 2 or len(pa) < len(pb):
        return None

    def key(m):
        return tuple(sorted(((-a.id, e) for a, e in m)))

    def order(m):
        # lexicographic on descending atom ids
        return [x for a, e in sorted(m, key=lambda ae: -ae[0].id) for x in (a.id, e)]
    lb = max(pb, key=order)
    cb = pb[lb]
    ilb = tuple((x, -e) for x, e in lb)
    q = {}
    r = dict(pa)
    for _ in range(len(pa) * 2):
        if not r:
            return q
        lm = max(r, key=order)
        m = mono_mul(lm, ilb)
        dm = dict(lm)
        for x, e in lb:
            if e > 0 and dm.get(x, 0) < e:
                return None
        c = r[lm] / cb
        if m in q:
            return None
        q[m] = c
        for mb, cc in pb.items():
            mm = mono_mul(m, mb)
            n = r.get(mm, 0) - c * cc
            if n == 0:
                r.pop(mm, None)
            else:
                r[mm] = n
        if len(r) > 200:
            return None
    return q if not r else None


def powi(a, n):
    r = Fraction(1)
    base = a if n >= 0 else inv(a)
    for _ in range(abs(n)):
        r = mul(r, base)
    return r


# ---------------------------------------------------------------- booleans


def _cmp0(op, p, sort):
    """op in le0, lt0, eq0 on polynomial term p"""
    if not isT(p):
        return {"le0": p <= 0, "lt0": p < 0, "eq0": p == 0}[op]
    pp = to_poly(p)
    # normalise scale by |leading coefficient|
    if p.op == "poly":
        lead = p.args[-1][0]
        if sort == "I":
            g = 0
            for c, m in p.args:
                if m != ():
                    g = math.gcd(g, abs(c))
            c0 = pp.get((), 0)
            if g > 1:
                if op == "eq0":
                    if c0 % g:
                        return False
                    p = from_poly({m: c // g for m, c in pp.items()}, "I")
                else:
                    q = {m: c // g for m, c in pp.items() if m != ()}
                    # g*r + c0 <= 0  <=> r <= floor(-c0/g)
                    if op == "lt0":
                        c0 += 1
                        op = "le0"
                    k = -((-c0) // g)
                    if k:
                        q[()] = k
                    p = from_poly(q, "I")
                if not isT(p):
                    return {"le0": p <= 0, "lt0": p < 0, "eq0": p == 0}[op]
            elif op == "lt0":
                p = add(p, 1)
                op = "le0"
        else:
            # scale by leading non-constant coefficient
            l = None
            for c, m in p.args:
                if m != ():
                    l = c
            if abs(l) != 1:
                p = from_poly({m: c / abs(l) for m, c in pp.items()}, "R")
        if op == "eq0" and isT(p) and p.op == "poly":
            l = None
            for c, m in p.args:
                if m != ():
                    l = c
            if l < 0:
                p = neg(p)
    elif sort == "I" and op == "lt0":
        p = add(p, 1)
        op = "le0"
    # squares / non-negative atoms: quick facts
    if isT(p) and p.op != "poly":
        a = p
        if op == "lt0" and a.op in ("abs",):
            return False
    if isT(p) and p.op == "ite" and not isT(p.args[1]) and not isT(p.args[2]):
        c, x, y = p.args
        bx = {"le0": x <= 0, "lt0": x < 0, "eq0": x == 0}[op]
        by = {"le0": y <= 0, "lt0": y < 0, "eq0": y == 0}[op]
        if bx and by:
            return True
        if not bx and not by:
            return False
        return c if bx else bnot(c)
    if isT(p) and p.op == "poly" and len(p.args) <= 2:
        # c1*ite(c,x,y)+c0 with constants
        its = [(c, m) for c, m in p.args if m != ()]
        if len(its) == 1 and len(its[0][1]) == 1 and its[0][1][0][1] == 1 and its[0][1][0][0].op == "ite":
            a = its[0][1][0][0]
            c, x, y = a.args
            if not isT(x) and not isT(y):
                c0 = pp2(p).get((), 0)
                fx = its[0][0] * x + c0
                fy = its[0][0] * y + c0
                bx = {"le0": fx <= 0, "lt0": fx < 0, "eq0": fx == 0}[op]
                by = {"le0": fy <= 0, "lt0": fy < 0, "eq0": fy == 0}[op]
                if bx and by:
                    return True
                if not bx and not by:
                    return False
                return c if bx else bnot(c)
    return mk(op, (p,), "B")


def pp2(p):
    return to_poly(p)


def le(a, b):
    d = sub(a, b)
    return _cmp0("le0", d, sort_of(d))


def lt(a, b):
    d = sub(a, b)
    return _cmp0("lt0", d, sort_of(d))


def eq(a, b):
    if a is b:
        return True
    sa = sort_of(a)
    if sa == "B":
        if not isT(a):
            return b if a else bnot(b)
        if not isT(b):
            return a if b else bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    d = sub(a, b)
    return _cmp0("eq0", d, sort_of(d))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def bnot(a):
    if not isT(a):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return _cmp0("lt0", neg(a.args[0]), a.args[0].sort)
    if a.op == "lt0":
        return _cmp0("le0", neg(a.args[0]), a.args[0].sort)
    if a.op == "and":
        return bor(*[bnot(x) for x in a.args])
    if a.op == "or":
        return band(*[bnot(x) for x in a.args])
    return mk("not", (a,), "B")


def _flat(op, xs, unit):
    out = []
    seen = set()
    for x in xs:
        if not isT(x):
            if x == unit:
                continue
            return None
        for y in (x.args if x.op == op else (x,)):
            if y not in seen:
                seen.add(y)
                out.append(y)
    for y in out:
        n = y.args[0] if y.op == "not" else None
        if n is not None and n in seen:
            return None
        if y.op in ("le0", "lt0") and bnot(y) in seen:
            return None
    return out


def band(*xs):
    o = _flat("and", xs, True)
    if o is None:
        return False
    if not o:
        return True
    if len(o) == 1:
        return o[0]
    return mk("and", tuple(sorted(o)), "B")


def bor(*xs):
    o = _flat("or", xs, False)
    if o is None:
        return True
    if not o:
        return False
    if len(o) == 1:
        return o[0]
    return mk("or", tuple(sorted(o)), "B")


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if not isT(c):
        return a if c else b
    if a is b or (not isT(a) and not isT(b) and type(a) == type(b) and a == b):
        return a
    s = sort_of(a)
    if s == "B":
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isT(a) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isT(b) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    # canonical orientation of comparisons: keep the smaller id of (c, not c)
    n = bnot(c)
    if isT(n) and n.op in ("le0", "lt0", "or", "and") and n.id < c.id:
        c, a, b = n, b, a
    if a is b or (not isT(a) and not isT(b) and a == b):
        return a
    return mk("ite", (c, a, b), s)


def lead_negative(p):
    if not isT(p):
        return p < 0
    if p.op == "poly":
        for c, m in reversed(p.args):
            if m != ():
                return c < 0
    return False


def absr(a):
    if not isT(a):
        return abs(a)
    if a.op in ("abs",):
        return a
    if a.op == "app" and a.args[0] in ("sqrt", "exp", "pow10"):
        return a
    if lead_negative(a):
        a = neg(a)
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            return mul(abs(c), absr(from_poly({m: Fraction(1)}, "R")))
        if all(e % 2 == 0 for x, e in m):
            return a
        if len(m) > 1 or m[0][1] != 1:
            r = Fraction(1)
            for x, e in m:
                r = mul(r, powi(absr(x), e) if e > 0 else inv(powi(absr(x), -e)))
            return r
    elif a.sort == "R":
        m = content(p)
        if m:
            r = absr(from_poly({m: Fraction(1)}, "R"))
            return mul(r, absr(div_mono(p, m)))
    return mk("abs", (a,), a.sort)


def content(p):
    """monomial dividing every term of the polynomial (exponents may be < 0)"""
    ms = list(p)
    d = dict(ms[0])
    lo = dict(d)
    for m in ms[1:]:
        e = dict(m)
        for a in list(lo):
            lo[a] = min(lo[a], e.get(a, 0))
        for a in e:
            if a not in lo:
                lo[a] = min(0, e[a])
    # atoms absent from some monomial count as exponent 0
    for a in list(lo):
        if any(a not in dict(m) for m in ms):
            lo[a] = min(lo[a], 0)
        if lo[a] == 0:
            del lo[a]
    return tuple(sorted(lo.items(), key=lambda ae: ae[0].id))


def div_mono(p, m):
    out = {}
    dm = dict(m)
    for k, c in p.items():
        d = dict(k)
        for a, e in dm.items():
            v = d.get(a, 0) - e
            if v:
                d[a] = v
            elif a in d:
                del d[a]
        kk = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
        out[kk] = out.get(kk, 0) + c
    return from_poly(out, "R")


def toreal(a):
    if not isT(a):
        return Fraction(a)
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, toreal(x), toreal(y))
    if a.op == "poly":
        r = Fraction(0)
        for c, m in a.args:
            t = Fraction(c)
            for x, e in m:
                t = mul(t, powi(mk("toreal", (x,), "R") if x.op != "ite" else toreal(x), e))
            r = add(r, t)
        return r
    return mk("toreal", (a,), "R")


def floor(a):
    """floor: R -> I"""
    if not isT(a):
        return a.numerator // a.denominator
    if a.op == "ite" and not (isT(a.args[1]) and isT(a.args[2])):
        return ite(a.args[0], floor(a.args[1]), floor(a.args[2]))
    p = to_poly(a)
    ip = 0
    rest = {}
    for m, c in p.items():
        if Fraction(c).denominator == 1 and all(x.op == "toreal" and e > 0 for x, e in m):
            t = int(c)
            for x, e in m:
                for _ in range(e):
                    t = mul(t, x.args[0])
            ip = add(ip, t)
        else:
            if m == ():
                k = c.numerator // c.denominator
                ip = add(ip, k)
                if c - k:
                    rest[m] = c - k
            else:
                rest[m] = c
    if not rest:
        return ip
    r = from_poly(rest, "R")
    if not isT(r):
        return add(ip, r.numerator // r.denominator)
    return add(ip, mk("floor", (r,), "I"))


def trunc(a):
    if not isT(a):
        return int(a)  # toward zero
    f = floor(a)
    if not isT(f) or f.op != "floor" or True:
        return ite(le(Fraction(0), a), f, neg(floor(neg(a))))


def idiv(a, k):
    """floor division by positive constant"""
    if not isT(a):
        return a // k
    if k == 1:
        return a
    p = to_poly(a)
    q = {m: c for m, c in p.items() if c % k == 0}
    r = {m: c for m, c in p.items() if c % k}
    base = from_poly({m: c // k for m, c in q.items()}, "I")
    if not r:
        return base
    rr = from_poly(r, "I")
    if not isT(rr):
        return add(base, rr // k)
    c0 = r.get((), 0)
    if c0 and (c0 < 0 or c0 >= k):
        base = add(base, c0 // k)
        rr = add(rr, -(c0 - c0 % k))
    return add(base, mk("idiv", (rr, k), "I"))


def imod(a, k):
    if not isT(a):
        return a % k
    return sub(a, mul(k, idiv(a, k)))


def app(name, args, sort):
    return mk("app", (name,) + tuple(args), sort)


def _issq(c):
    n, d = c.numerator, c.denominator
    if n < 0:
        return None
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def _integral(x):
    """real term whose value is certainly an integer"""
    if not isT(x):
        return x.denominator == 1
    if x.op == "toreal":
        return True
    if x.op == "ite":
        return _integral(x.args[1]) and _integral(x.args[2])
    if x.op == "poly":
        return all(c.denominator == 1 and all(e > 0 and _integral(y) for y, e in m) for c, m in x.args)
    return False


def _drop_turns(a):
    """remove 2*pi*integer terms"""
    if not isT(a):
        return a
    p = to_poly(a)
    out = None
    for m, c in p.items():
        if c.denominator == 1 and c.numerator % 2 == 0 and len(m) > 1:
            d = dict(m)
            if d.pop(PI, 0) == 1 and all(e > 0 and _integral(x) for x, e in d.items()):
                if out is None:
                    out = dict(p)
                del out[m]
    return a if out is None else from_poly(out, "R")


def _pi_shift(a):
    """(k, rest): a = rest + k*pi/2 with integer k taken out"""
    if not isT(a):
        return 0, a
    p = to_poly(a)
    m = ((PI, 1),)
    c = p.get(m)
    if c is None:
        return 0, a
    k = Fraction(2 * c)
    k = k.numerator // k.denominator
    if k == 0:
        return 0, a
    return k, sub(a, mul(Fraction(k, 2), PI))


def pos_atom(a):
    """a value that is positive whenever it is not zero"""
    if a is PI or a.op == "abs":
        return True
    if a.op == "app":
        return a.args[0] in ("exp", "cosh", "sqrt", "pow")
    if a.op == "pp":
        return all(c > 0 and all(e % 2 == 0 or pos_atom(b) for b, e in m) for m, c in to_poly(a.args[0]).items())
    return False


def scale_pair(y, x):
    """the pair divided by a common positive factor, in a canonical scale"""
    p, q = to_poly(y), to_poly(x)
    if len(p) + len(q) > 200:
        return y, x
    both = dict.fromkeys(p, Fraction(1))
    both.update(dict.fromkeys(q, Fraction(1)))
    use = []
    for a, e in content(both):
        if e % 2 and not pos_atom(a):
            e -= 1
        if e:
            use.append((a, e))
    if use:
        y, x = div_mono(p, tuple(use)), div_mono(q, tuple(use))
        y, x = unparen(y), unparen(x)
        p, q = to_poly(y), to_poly(x)
        if not p or not q:
            return y, x
    m = min(p, key=mono_key)
    c = abs(p[m])
    if c != 1:
        y, x = mul(1 / c, y), mul(1 / c, x)
    return y, x


def unparen(x):
    """multiply out parenthesised factors with positive exponents"""
    p = to_poly(x)
    if not any(a.op == "pp" and e > 0 for m in p for a, e in m):
        return x
    r = Fraction(0)
    for m, c in p.items():
        t = from_poly({tuple((a, e) for a, e in m if not (a.op == "pp" and e > 0)): c}, "R")
        for a, e in m:
            if a.op == "pp" and e > 0:
                t = mul(t, powi(a.args[0], e))
        r = add(r, t)
    return r


def fn(name, *args):
    """real function application with canonicalisation"""
    a = args[0]
    const = not any(isT(x) for x in args)
    if name in ("sin", "cos"):
        a = _drop_turns(a)
        args = (a,)
        k, r = _pi_shift(a)
        if k:
            k %= 4
            o = "cos" if name == "sin" else "sin"
            if k == 0:
                return fn(name, r)
            if k == 2:
                return neg(fn(name, r))
            v = fn(o, r)
            # sin(r+pi/2)=cos r; cos(r+pi/2)=-sin r; +3pi/2: opposite
            return v if (name == "sin") == (k == 1) else neg(v)
        if isT(a) and lead_negative(a):
            v = fn(name, neg(a))
            return neg(v) if name == "sin" else v
    if name in ("sin", "tan", "asin", "atan", "sinh", "tanh"):
        if const and a == 0:
            return Fraction(0)
        if lead_negative(a):
            return neg(fn(name, neg(a)))
        if isT(a) and a.op == "app" and (name, a.args[0]) in (("sin", "asin"),):
            return a.args[1]
        if isT(a) and a.op == "app" and name == "sin" and a.args[0] == "acos":
            return fn("sqrt", sub(Fraction(1), mul(a.args[1], a.args[1])))
        if isT(a) and a.op == "app" and name == "sin" and a.args[0] == "atan2":
            y, x = a.args[1:]
            return div(y, fn("sqrt", add(mul(x, x), mul(y, y))))
        if isT(a) and a.op == "app" and name == "sin" and a.args[0] == "atan":
            return div(a.args[1], fn("sqrt", add(Fraction(1), mul(a.args[1], a.args[1]))))
        if name == "tan":
            return div(fn("sin", a), fn("cos", a))
        if name == "tanh":
            return div(fn("sinh", a), fn("cosh", a))
    elif name in ("cos", "cosh"):
        if const and a == 0:
            return Fraction(1)
        if lead_negative(a):
            return fn(name, neg(a))
        if isT(a) and a.op == "app" and name == "cos" and a.args[0] == "acos":
            return a.args[1]
        if isT(a) and a.op == "app" and name == "cos" and a.args[0] == "asin":
            return fn("sqrt", sub(Fraction(1), mul(a.args[1], a.args[1])))
        if isT(a) and a.op == "app" and name == "cos" and a.args[0] == "atan2":
            y, x = a.args[1:]
            return div(x, fn("sqrt", add(mul(x, x), mul(y, y))))
        if isT(a) and a.op == "app" and name == "cos" and a.args[0] == "atan":
            return inv(fn("sqrt", add(Fraction(1), mul(a.args[1], a.args[1]))))
    elif name == "sqrt":
        if const:
            r = _issq(a)
            if r is not None:
                return r
        p = to_poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            r = _issq(Fraction(c))
            if r is not None and m and all(e % 2 == 0 for x, e in m):
                return mul(r, absr(from_poly({tuple((x, e // 2) for x, e in m): Fraction(1)}, "R")))
            if r is None and c > 0 and m and all(e % 2 == 0 for x, e in m):
                # sqrt(c m^2) = sqrt(c) |m|
                return mul(fn("sqrt", Fraction(c)), absr(from_poly({tuple((x, e // 2) for x, e in m): Fraction(1)}, "R")))
    elif name == "exp":
        if const and a == 0:
            return Fraction(1)
    elif name in ("log", "log10", "log2"):
        if const and a == 1:
            return Fraction(0)
        if name == "log10" and const:
            k = Fraction(1)
            for e in range(1, 40):
                k *= 10
                if a == k:
                    return Fraction(e)
                if a == 1 / k:
                    return Fraction(-e)
        if isT(a) and a.op == "app" and a.args[0] == "exp" and name == "log":
            return a.args[1]
        if isT(a) and a.op == "app" and a.args[0] == "pow" and name == "log10" and a.args[1] == 10:
            return a.args[2]
    elif name == "pow":
        b = args[1]
        if not isT(b):
            if b == 0:
                return Fraction(1)
            if b.denominator == 1 and abs(b) <= 4:
                return powi(a, int(b))
            if b == Fraction(1, 2):
                return fn("sqrt", a)
            if not isT(a) and b.denominator == 1 and abs(b) < 40 and a != 0:
                return Fraction(a) ** int(b)
        if not isT(a) and a == 10 and isT(b):
            # 10^(k log10(x) + r) = x^k 10^r; x lies in the domain of log10
            p = to_poly(b)
            f, rest = Fraction(1), {}
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log10" and c.denominator == 1 and abs(c) <= 8:
                    f = mul(f, powi(m[0][0].args[1], int(c)))
                else:
                    rest[m] = c
            if len(rest) < len(p):
                r = from_poly(rest, "R")
                return mul(f, fn("pow", Fraction(10), r) if isT(r) or r != 0 else Fraction(1))
    elif name == "atan2":
        if isT(args[0]) and isT(args[1]):
            y, x = scale_pair(args[0], args[1])
            if y is not args[0] or x is not args[1]:
                return fn("atan2", y, x)
    return mk("app", (name,) + tuple(args), "R")


# ---------------------------------------------------------------- traversal


def subst(t, m):
    """substitute variables (dict var->term)"""
    memo = {}
    keys = frozenset(m)

    def go(x):
        if not isT(x):
            return x
        if not (fv(x) & keys):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go) if x.op != "var" else m[x]
            memo[x] = r
        return r

    return go(t)


def rebuild(x, go):
    op = x.op
    if op == "poly":
        r = 0 if x.sort == "I" else Fraction(0)
        for c, m in x.args:
            t = c if x.sort == "I" else Fraction(c)
            for a, e in m:
                g = go(a)
                if x.sort == "I":
                    for _ in range(e):
                        t = mul(t, g)
                else:
                    t = mul(t, powi(g, e))
            r = add(r, t)
        return r
    if op == "pp":
        return go(x.args[0])
    if op in ("le0", "lt0", "eq0"):
        p = go(x.args[0])
        return _cmp0(op, p, sort_of(p))
    if op == "not":
        return bnot(go(x.args[0]))
    if op == "and":
        return band(*[go(a) for a in x.args])
    if op == "or":
        return bor(*[go(a) for a in x.args])
    if op == "ite":
        c = go(x.args[0])
        if not isT(c):
            return go(x.args[1]) if c else go(x.args[2])
        return ite(c, go(x.args[1]), go(x.args[2]))
    if op == "abs":
        return absr(go(x.args[0]))
    if op == "toreal":
        return toreal(go(x.args[0]))
    if op == "floor":
        return floor(go(x.args[0]))
    if op == "idiv":
        return idiv(go(x.args[0]), x.args[1])
    if op == "app":
        args = [go(a) for a in x.args[1:]]
        if x.sort == "R" and x.args[0] in MATHFN:
            return fn(x.args[0], *args)
        return mk("app", (x.args[0],) + tuple(args), x.sort)
    if op == "var":
        return x
    raise NotImplementedError(op)


MATHFN = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "exp", "log", "log10",
          "log2", "sqrt", "pow", "cbrt"}


def subterms(roots):
    seen = set()
    stack = [r for r in roots if isT(r)]
    out = []
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == "poly":
            for c, m in x.args:
                for a, e in m:
                    stack.append(a)
        else:
            for a in x.args:
                if isT(a):
                    stack.append(a)
    return out


def show(x, depth=0):
    if not isT(x):
        if isinstance(x, Fraction):
            return str(x) if x.denominator < 10**6 else "%.9g" % float(x)
        return str(x)
    if depth > 12:
        return "..."
    d = depth + 1
    if x.op == "var":
        return x.args[0]
    if x.op == "poly":
        s = []
        for c, m in x.args:
            ms = "*".join((show(a, d) if e == 1 else "%s^%d" % (show(a, d), e)) for a, e in m)
            cs = show(c if x.sort == "I" else Fraction(c))
            s.append(cs if not ms else (ms if c == 1 else cs + "*" + ms))
        return "(" + " + ".join(s) + ")"
    if x.op == "pp":
        return show(x.args[0], d)
    if x.op in ("le0", "lt0", "eq0"):
        return "%s %s 0" % (show(x.args[0], d), {"le0": "<=", "lt0": "<", "eq0": "=="}[x.op])
    if x.op == "app":
        return "%s(%s)" % (x.args[0], ", ".join(show(a, d) for a in x.args[1:]))
    return "%s(%s)" % (x.op, ", ".join(show(a, d) for a in x.args))


# ---------------------------------------------------------------- ring proofs


class TooBig(Exception):
    pass


def ring_zero(p, limit=60000, facts=None):
    """True when p is identically 0 as a rational function of its atoms modulo
    sqrt(a)^2=a, abs(a)^2=a^2 and sin^2+cos^2=1.  (Denominators taken non-zero.)"""
    try:
        return _ring_num(p, limit) == {}
    except TooBig:
        return False


def _size_ok(p, limit):
    if len(p) > limit:
        raise TooBig()
    return p


_REDUCE_OPS = ("sqrt", "cos", "cosh")


def _reduce(p, limit):
    """apply sqrt^2, abs^2, cos^2 = 1 - sin^2 reductions"""
    work = p
    for _ in range(40):
        changed = False
        out = {}
        for m, c in work.items():
            hit = None
            for i, (a, e) in enumerate(m):
                if e >= 2 and (a.op == "abs" or (a.op == "app" and a.args[0] in _REDUCE_OPS)):
                    hit = i
                    break
            if hit is None:
                n = out.get(m, 0) + c
                if n == 0:
                    out.pop(m, None)
                else:
                    out[m] = n
                continue
            changed = True
            a, e = m[hit]
            if a.op == "abs":
                rep = pmul(to_poly(a.args[0]), to_poly(a.args[0]))
            elif a.args[0] == "sqrt":
                rep = to_poly(a.args[1])
            elif a.args[0] == "cos":
                s = fn("sin", a.args[1])
                rep = padd({(): Fraction(1)}, pmul(to_poly(s), to_poly(s)), -1)
            else:
                s = fn("sinh", a.args[1])
                rep = padd({(): Fraction(1)}, pmul(to_poly(s), to_poly(s)))
            rest = m[:hit] + (((a, e - 2),) if e > 2 else ()) + m[hit + 1:]
            for m2, c2 in rep.items():
                mm = mono_mul(rest, m2)
                n = out.get(mm, 0) + c * c2
                if n == 0:
                    out.pop(mm, None)
                else:
                    out[mm] = n
            if len(out) > limit:
                raise TooBig()
        work = out
        if not changed:
            return work
    return work


def _ring_num(p, limit):
    """numerator polynomial of p after clearing denominators, reduced"""
    if not isT(p):
        return to_poly(p)
    work = to_poly(p)
    for _ in range(60):
        # clear negative exponents: multiply by atom^k
        negs = {}
        pos_pp = False
        for m in work:
            for a, e in m:
                if e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
                elif a.op == "pp":
                    pos_pp = True
        if not negs and not pos_pp:
            work2 = _reduce(work, limit)
            if work2 == work:
                return work
            work = work2
            continue
        if negs:
            f = tuple(sorted(negs.items(), key=lambda ae: ae[0].id))
            work = {mono_mul(m, f): c for m, c in work.items()}
        # expand parenthesised polynomials with positive exponents
        while True:
            todo = None
            for m in work:
                for a, e in m:
                    if a.op == "pp" and e > 0:
                        todo = a
                        break
                if todo:
                    break
            if not todo:
                break
            body = to_poly(todo.args[0])
            pows = {0: {(): Fraction(1)}}
            out = {}
            for m, c in work.items():
                e = 0
                rest = []
                for a, ee in m:
                    if a is todo:
                        e = ee
                    else:
                        rest.append((a, ee))
                if e < 0:
                    raise TooBig()
                k = max(pows)
                while k < e:
                    pows[k + 1] = _size_ok(pmul(pows[k], body), limit)
                    k += 1
                r = {tuple(rest): c}
                for mm, cc in pmul(r, pows[e]).items():
                    n = out.get(mm, 0) + cc
                    if n == 0:
                        out.pop(mm, None)
                    else:
                        out[mm] = n
                if len(out) > limit:
                    raise TooBig()
            work = out
        work = _reduce(work, limit)
    return work


# ---------------------------------------------------------------- trigonometry


def _gcdq(a, b):
    a, b = abs(a), abs(b)
    return Fraction(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


def trig_normalize(roots, maxmul=8):
    """rewrite every sin/cos of a sum into sin/cos of base angles (angle-sum and
    multiple-angle identities); returns the rewritten roots"""
    base = {}
    for _ in range(3):
        args = [x.args[1] for x in subterms(roots) if x.op == "app" and x.args[0] in ("sin", "cos")]
        for a in args:
            if not isT(a):
                continue
            for m, c in to_poly(a).items():
                base[m] = c if m not in base else _gcdq(base[m], c)
        break
    memo = {}
    cs = {}

    def mult(m, n):
        """(sin, cos) of n * base[m] * m"""
        k = (m, n)
        r = cs.get(k)
        if r is not None:
            return r
        if n == 0:
            r = (Fraction(0), Fraction(1))
        elif n < 0:
            s_, c_ = mult(m, -n)
            r = (neg(s_), c_)
        elif n == 1:
            ang = from_poly({m: abs(base[m])}, "R")
            r = (fn("sin", ang), fn("cos", ang))
        elif n % 2 == 0:
            s_, c_ = mult(m, n // 2)
            r = (mul(2 * Fraction(1), mul(s_, c_)), sub(Fraction(1), mul(Fraction(2), mul(s_, s_))))
        else:
            s1, c1 = mult(m, n - 1)
            s2, c2 = mult(m, 1)
            r = (add(mul(s1, c2), mul(c1, s2)), sub(mul(c1, c2), mul(s1, s2)))
        cs[k] = r
        return r

    def go(x):
        if not isT(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "app" and x.args[0] in ("sin", "cos") and isT(x.args[1]):
            a = x.args[1]
            p = to_poly(a)
            s_, c_ = Fraction(0), Fraction(1)
            ok = len(p) <= 6
            parts = []
            for m, c in sorted(p.items(), key=lambda mc: mono_key(mc[0])):
                n = c / abs(base[m])
                if n.denominator != 1 or abs(n) > maxmul:
                    ok = False
                    break
                parts.append((m, int(n)))
            if not ok:
                r = x
            else:
                for m, n in parts:
                    s2, c2 = mult(m, n)
                    s_, c_ = add(mul(s_, c2), mul(c_, s2)), sub(mul(c_, c2), mul(s_, s2))
                r = s_ if x.args[0] == "sin" else c_
        elif x.op == "var":
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return [go(x) for x in roots]


def nf(roots, limit=4000):
    """normal form of every polynomial inside the roots: trigonometric base
    angles, cos^2 -> 1 - sin^2, sqrt^2, abs^2 (polynomials without division)"""
    roots = trig_normalize(roots)
    memo = {}

    def red(x):
        """reduce one polynomial term"""
        if not isT(x) or x.op != "poly" or x.sort != "R":
            return x
        p = to_poly(x)
        if any(e < 0 for m in p for a, e in m):
            return x
        # expand parenthesised factors
        try:
            if any(a.op == "pp" for m in p for a, e in m):
                p = _ring_num(x, limit)
            else:
                p = _reduce(p, limit)
        except TooBig:
            return x
        return from_poly(p, "R")

    def go(x):
        if not isT(x):
            return x
        r = memo.get(x)
        if r is None:
            r = x if x.op == "var" else rebuild(x, go)
            if isT(r):
                if r.op in ("le0", "lt0", "eq0"):
                    p = red(r.args[0])
                    if p is not r.args[0]:
                        r = _cmp0(r.op, p, sort_of(p))
                elif r.op == "poly":
                    r = red(r)
            memo[x] = r
        return r

    out = [go(x) for x in roots]
    return out


def sqrt_factors(roots, limit=4000):
    """replace sqrt(N) by |g|*sqrt(D) when N = g^2*D for a sqrt(D) present and a
    single atom g (decided by ring normalisation)"""
    sq = [x for x in subterms(roots) if x.op == "app" and x.args[0] == "sqrt" and isT(x.args[1])]
    if len(sq) < 2 or len(sq) > 6:
        return roots
    gs = set()
    for x in sq:
        for y in subterms([x.args[1]]):
            if y.op == "var" or (y.op == "app" and y.args[0] in ("sin", "cos")):
                gs.add(y)
    if len(gs) > 12:
        return roots
    m = {}
    for a in sq:
        for b in sq:
            if a is b or b in m or a in m:
                continue
            N, D = a.args[1], b.args[1]
            for g in sorted(gs):
                try:
                    if _ring_num(sub(N, mul(mul(g, g), D)), limit) == {}:
                        m[a] = mul(absr(g), b)
                        break
                except TooBig:
                    pass
    if not m:
        return roots
    memo = {}

    def go(x):
        if not isT(x):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = x if x.op == "var" else rebuild(x, go)
            memo[x] = r
        return r
    return [go(x) for x in roots]
