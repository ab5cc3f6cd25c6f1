"""Discharge of obligations: ring normalisation, case splits, SMT."""
import os, time, signal, pickle
from fractions import Fraction
import z3
from term import *
import term
from smt import Tr


def conj_list(pc):
    out = []
    for c in pc:
        if isT(c) and c.op == "and":
            out += conj_list(c.args)
        else:
            out.append(c)
    return out


def eq_subst(pc, goal):
    """use equalities x = t (x a variable) of the path condition"""
    pc = list(pc)
    for _ in range(20):
        hit = None
        have = set(c for c in pc if isT(c) and c.op == "le0")
        for c in list(have):
            # p <= 0 and -p <= 0
            o = le(0, c.args[0]) if c.args[0].sort == "I" else le(Fraction(0), c.args[0])
            if isT(o) and o in have and o is not c:
                e = eq(c.args[0], 0 if c.args[0].sort == "I" else Fraction(0))
                if e is False:
                    return [False], goal
                if isT(e) and e not in pc:
                    pc = [x for x in pc if x is not c and x is not o] + [e]
                    have -= {c, o}
        for i, c in enumerate(pc):
            if isT(c) and c.op == "eq0":
                p = to_poly(c.args[0])
                for m, co in p.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and m[0][0] is not PI:
                        x = m[0][0]
                        rest = from_poly({mm: cc for mm, cc in p.items() if mm != m}, x.sort)
                        if x in fv2(rest):
                            continue
                        if x.sort == "I":
                            if abs(co) != 1:
                                continue
                            t = mul(-co, rest)
                        else:
                            t = mul(-1 / Fraction(co), rest)
                        hit = (i, x, t)
                        break
                if hit:
                    break
        if not hit:
            return pc, goal
        i, x, t = hit
        del pc[i]
        pc = [subst(c, {x: t}) if isT(c) else c for c in pc]
        pc = [c for c in pc if c is not True]
        goal = subst(goal, {x: t}) if isT(goal) else goal
        if any(c is False for c in pc):
            return [False], goal
    return pc, goal


def fv2(x):
    return fv(x)


def find_ites(t, limit=50):
    conds = []
    for x in subterms([t]):
        if x.op == "ite" and x.args[0] not in conds:
            conds.append(x.args[0])
        if x.op == "abs":
            c = le(Fraction(0) if x.sort == "R" else 0, x.args[0])
            if isT(c) and c not in conds:
                conds.append(c)
    return conds


def set_cond(t, c, val):
    """replace condition c by val inside t"""
    nc = bnot(c)
    memo = {}

    def go(x):
        if not isT(x):
            return x
        if x is c:
            return val
        if x is nc:
            return not val
        r = memo.get(x)
        if r is None:
            if x.op == "abs":
                cc = le(Fraction(0) if x.sort == "R" else 0, x.args[0])
                if cc is c or cc is nc:
                    v = val if cc is c else not val
                    r = go(x.args[0]) if v else neg(go(x.args[0]))
                    memo[x] = r
                    return r
            r = rebuild(x, go) if x.op not in ("var",) else x
            memo[x] = r
        return r
    return go(t)


def positive_rewrite(t, pc):
    """|x| -> x or -x when the path condition fixes the sign syntactically"""
    return t


POSFN = ("exp", "cosh")


def sign_of(a, pc, feas, cache):
    """+1/-1 when the strict sign of atom a follows from pc, else 0"""
    r = cache.get(a)
    if r is not None:
        return r
    if a is PI or (a.op == "app" and a.args[0] in POSFN):
        r = 1
    elif a.op == "abs":
        r = 1 if bnot(eq(a.args[0], Fraction(0))) in pc or sign_of(a.args[0], pc, feas, cache) else 0
        if not r and feas is not None and not feas.check(pc, eq(a.args[0], Fraction(0))):
            r = 1
    else:
        z = Fraction(0)
        if lt(z, a) in pc:
            r = 1
        elif lt(a, z) in pc:
            r = -1
        elif feas is not None and not feas.check(pc, le(a, z)):
            r = 1
        elif feas is not None and not feas.check(pc, le(z, a)):
            r = -1
        else:
            r = 0
    cache[a] = r
    return r


def nonzero(a, pc, feas, cache):
    if sign_of(a, pc, feas, cache):
        return True
    return bnot(eq(a, Fraction(0))) in pc


def cancel_one(c, pc, feas, cache):
    """divide a comparison by common factors of known sign"""
    if not isT(c):
        return c
    if c.op == "not" and isT(c.args[0]) and c.args[0].op in ("eq0", "le0", "lt0"):
        return bnot(cancel_one(c.args[0], pc, feas, cache))
    if c.op in ("and", "or"):
        f = band if c.op == "and" else bor
        return f(*[cancel_one(x, pc, feas, cache) for x in c.args])
    if c.op not in ("eq0", "le0", "lt0") or c.args[0].sort != "R":
        return c
    p = to_poly(c.args[0])
    m = content(p)
    if not m:
        return c
    use, sg = [], 1
    for a, e in m:
        if c in (lt(Fraction(0), a), lt(a, Fraction(0))):
            return c
        if c.op == "eq0" or e % 2 == 0:
            if e < 0 or nonzero(a, pc, feas, cache):
                use.append((a, e))
        else:
            s = sign_of(a, pc, feas, cache)
            if s:
                sg *= s
                use.append((a, e))
    if not use:
        return c
    if len(p) == 1 and len(use) == len(m):
        return c
    q = div_mono(p, tuple(use))
    z = Fraction(0)
    if sg < 0:
        q = neg(q)
    return {"eq0": eq, "le0": le, "lt0": lt}[c.op](q, z)


def cancel(pc, goal, feas):
    cache = {}
    known = [c for c in pc if isT(c)]
    out = []
    for i, c in enumerate(known):
        # the fact itself may be the source of a sign; facts x>0 are kept
        out.append(cancel_one(c, known, feas, cache))
    return out, cancel_one(goal, known, feas, cache)


class Result:
    def __init__(self, ok, how, detail="", model=None):
        self.ok, self.how, self.detail, self.model = ok, how, detail, model


def prove(pc, goal, timeout=20, feas=None, depth=0, deadline=None):
    """try to prove pc |= goal. Result.ok True / False (countermodel) / None"""
    if deadline is None:
        deadline = time.time() + timeout * 3
    if not isT(goal):
        if goal:
            return Result(True, "trivial")
    pc = conj_list(pc)
    if any(c is False for c in pc):
        return Result(True, "infeasible")
    if depth == 0 and isT(goal) and any(is_let(c) for c in pc) and goal.op in ("le0", "lt0", "eq0"):
        # first with the let-variables opaque
        r = smt(relevant(pc, goal), goal, 2, deadline, ("linear", "full"))
        if r.ok is True:
            return r
    pc, goal = eq_subst(pc, goal)
    if any(c is False for c in pc):
        return Result(True, "infeasible")
    if not isT(goal) and goal:
        return Result(True, "ring")
    if isT(goal) and goal in pc:
        return Result(True, "assumption")
    if depth == 0:
        pc, goal = cancel(pc, goal, feas)
        if any(c is False for c in pc):
            return Result(True, "infeasible")
        pc = [c for c in pc if isT(c)]
        if not isT(goal) and goal:
            return Result(True, "ring")
        if isT(goal) and goal in pc:
            return Result(True, "assumption")
    # split conjunctions
    if isT(goal) and goal.op == "and":
        how = set()
        for g in goal.args:
            r = prove(pc, g, timeout, feas, depth, deadline)
            if r.ok is not True:
                return r
            how.add(r.how)
        return Result(True, "+".join(sorted(how)))
    # case split on ite conditions of equalities
    if isT(goal) and goal.op in ("eq0",):
        if ring_zero(goal.args[0]):
            return Result(True, "ring")
        if depth == 0 or not find_ites(goal):
            t = trig_normalize([goal.args[0]])[0]
            if ring_zero(t):
                return Result(True, "ring-trig")
            t = nf([goal.args[0]])[0]
            if ring_zero(t):
                return Result(True, "ring-nf")
            t2 = sqrt_factors([t])[0]
            if t2 is not t:
                goal = eq(t2, Fraction(0)) if isT(t2) else (t2 == 0)
                if not isT(goal):
                    return Result(True, "ring-sqrt") if goal else Result(False, "ring-sqrt")
                if ring_zero(goal.args[0]):
                    return Result(True, "ring-sqrt")
    if isT(goal) and goal.op in ("eq0", "le0", "lt0") and depth < 12:
        cs = find_ites(goal)
        if cs:
            # choose the condition with no nested ite
            cs = sorted(cs, key=lambda c: (len(find_ites(c)), c.id))
            c = cs[0]
            how = set()
            for v in (True, False):
                g = set_cond(goal, c, v)
                cc = c if v else bnot(c)
                npc = [set_cond(x, c, v) for x in pc]
                npc = [x for x in npc if x is not True]
                if any(x is False for x in npc):
                    continue
                if not isT(cc):
                    if not cc:
                        continue
                    r = prove(npc, g, timeout, feas, depth + 1, deadline)
                else:
                    if feas is not None:
                        if not feas.check([x for x in npc if isT(x)], cc):
                            how.add("infeasible")
                            continue
                    r = prove(npc + [cc], g, timeout, feas, depth + 1, deadline)
                if r.ok is not True:
                    return r
                how.add(r.how)
            return Result(True, "split(" + "+".join(sorted(how)) + ")")
    r = smt(pc, goal, timeout, deadline)
    return r


def relevant(pc, goal, rounds=3):
    """path conditions connected to the goal through shared variables"""
    if not isT(goal):
        return pc
    vs = set(fv(goal))
    left = list(pc)
    out = []
    for _ in range(rounds):
        nxt = []
        add_ = []
        for c in left:
            if fv(c) & vs:
                add_.append(c)
            else:
                nxt.append(c)
        if not add_:
            break
        for c in add_:
            vs |= fv(c)
        out += add_
        left = nxt
    return out


def is_let(c):
    return isT(c) and c.op == "eq0" and any(v.args[0].startswith("let!") for v in fv(c))


ANG = {"atan2": (-1, 1), "acos": (0, 1), "asin": (Fraction(-1, 2), Fraction(1, 2)), "atan": (Fraction(-1, 2), Fraction(1, 2))}


def scale_angles(cs):
    """inverse trigonometric values that occur divided by pi are written as
    pi*A with A a bounded variable; common factors pi are cancelled"""
    apps = []
    for x in subterms(cs):
        if x.op == "poly":
            for c, m in x.args:
                d = dict(m)
                if d.get(PI, 0) < 0:
                    for a in d:
                        if a.op == "app" and a.args[0] in ANG and a not in apps:
                            apps.append(a)
    if not apps:
        return None
    sub, extra = {}, []
    for a in apps:
        v = var("ang!%d" % a.id, "R")
        sub[a] = mul(PI, v)
        lo, hi = ANG[a.args[0]]
        extra += [le(Fraction(lo), v), le(v, Fraction(hi))]
        if a.args[0] in ("atan2", "asin", "atan"):
            y = a.args[1]
            if isT(y):
                extra += [bor(le(y, Fraction(0)), lt(Fraction(0), v)), bor(le(Fraction(0), y), lt(v, Fraction(0)))]
    memo = {}

    def go(x):
        if not isT(x):
            return x
        r = memo.get(x)
        if r is None:
            r = sub.get(x)
            if r is None:
                r = x if x.op == "var" else rebuild(x, go)
            memo[x] = r
        return r
    out = [go(c) if isT(c) else c for c in cs] + extra
    res = []
    for c in out:
        if isT(c):
            neg_ = c.op == "not"
            k = c.args[0] if neg_ else c
            if k.op in ("le0", "lt0", "eq0"):
                p = to_poly(k.args[0])
                if p and all(dict(m).get(PI, 0) >= 1 for m in p):
                    q = div(k.args[0], PI)
                    z = Fraction(0)
                    k = {"le0": le, "lt0": lt, "eq0": eq}[k.op](q, z)
                    c = bnot(k) if neg_ else k
        res.append(c)
    return res


def smt(pc, goal, timeout, deadline, modes=("linear", "nf", "ang", "full")):
    t0 = time.time()
    budget = max(1.0, min(timeout, deadline - t0))
    # 1. linear abstraction (fast)
    cs = [c for c in pc if isT(c)]
    ng = bnot(goal)
    for mode in modes:
        tr = Tr(mode != "full")
        s = z3.Solver()
        has_floor = mode == "linear" and any(x.op == "floor" for x in subterms(cs + ([ng] if isT(ng) else [])))
        s.set("timeout", int((min(budget, 1 if has_floor else 4) if mode != "full" else budget) * 1000))
        if mode == "nf":
            old = cs + [ng]
            new = nf(old)
            if all(a is b for a, b in zip(old, new)):
                continue
            if any(x is False for x in new):
                return Result(True, "ring-nf")
            *cs, ng = new
            cs = [c for c in cs if isT(c)]
        if mode == "ang":
            tr = Tr(True)
            old = scale_angles(cs + [ng])
            if old is None:
                continue
            if any(x is False for x in old):
                return Result(True, "angles")
            save = cs, ng
            cs, ng = [c for c in old if isT(c)], True
        for c in cs:
            s.add(tr.t(c))
        s.add(tr.t(ng) if isT(ng) else z3.BoolVal(ng))
        roots = cs + ([ng] if isT(ng) else [])
        done = set()
        while True:
            cl = tr.closure(roots)
            new = [k for k in cl if k not in done]
            if not new:
                break
            for k in new:
                done.add(k)
                s.add(*cl[k])
        for extra in func_axioms(tr, roots):
            s.add(extra)
        r = guarded_check(s, budget)
        if r == "unknown" and mode == "linear":
            r = int_split(s, tr, roots)
        if mode == "ang":
            cs, ng = save
        if r == "unsat":
            return Result(True, "z3-" + mode)
        if mode == "full":
            if r == "sat":
                try:
                    m = s.model()
                    mod = {}
                    for d in m.decls():
                        if d.arity() == 0:
                            mod[d.name()] = str(m[d])
                    return Result(False, "z3-full:sat", "", mod)
                except z3.Z3Exception:
                    return Result(False, "z3-full:sat")
            return Result(None, "z3:" + str(r) + ":" + s.reason_unknown()[:60])
    return Result(None, "unknown")


def int_split(s, tr, roots):
    """branch on the order of pairs of integer atoms (floor terms, indices)"""
    fl, iv = [], []
    for x in subterms(roots):
        if x.op == "floor":
            fl.append(x)
        elif x.op == "var" and x.sort == "I":
            iv.append(x)
    if not fl or len(fl) > 3 or len(iv) > 5:
        return "unknown"
    s.set("timeout", 1500)
    for i, a in enumerate(fl):
        for b in fl[i + 1:] + iv:
            za, zb = tr.t(a), tr.t(b)
            ok = True
            for c in (za < zb, za == zb, za > zb):
                s.push()
                s.add(c)
                r = guarded_check(s, 1)
                s.pop()
                if r != "unsat":
                    ok = False
                    break
            if ok:
                return "unsat"
    return "unknown"


def func_axioms(tr, roots):
    """relations between applications of the same function (monotonicity)"""
    out = []
    by = {}
    for x in subterms(roots):
        if x.op == "app" and x.args[0] in ("sqrt", "exp", "log", "log10", "asin", "atan", "acos", "floor"):
            by.setdefault(x.args[0], []).append(x)
        if x.op == "floor":
            by.setdefault("floor", []).append(x)
    for n, xs in by.items():
        if len(xs) > 6:
            continue
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                a, b = xs[i], xs[j]
                if n == "floor":
                    za, zb = tr.t(a.args[0]), tr.t(b.args[0])
                else:
                    za, zb = tr.t(a.args[1]), tr.t(b.args[1])
                fa, fb = tr.t(a), tr.t(b)
                if n == "acos":
                    za, zb = zb, za
                pos = z3.And(za > 0, zb > 0) if n in ("log", "log10") else z3.And(za >= 0, zb >= 0) if n == "sqrt" else z3.BoolVal(True)
                if n == "floor":
                    out.append(z3.Implies(za <= zb, fa <= fb))
                    out.append(z3.Implies(zb <= za, fb <= fa))
                else:
                    out.append(z3.Implies(z3.And(pos, za < zb), fa < fb))
                    out.append(z3.Implies(z3.And(pos, zb < za), fb < fa))
                    out.append(z3.Implies(za == zb, fa == fb))
    for x in subterms(roots):
        if x.op == "app" and x.args[0] in ("acos",) and not tr.linear:
            # cos(acos x) = x handled in term.fn
            pass
        # congruence of other applications
    apps = {}
    for x in subterms(roots):
        if x.op == "app" and x.args[0] not in ("sqrt", "exp", "log", "log10", "asin", "atan", "acos"):
            apps.setdefault((x.args[0], len(x.args)), []).append(x)
    if True:
        for k, xs in apps.items():
            if k[0] not in term.MATHFN and not tr.linear:
                continue  # genuine UF in z3
            if len(xs) > 8:
                continue
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    cond = z3.And(*[tr.t(p) == tr.t(q) for p, q in zip(xs[i].args[1:], xs[j].args[1:])])
                    out.append(z3.Implies(cond, tr.t(xs[i]) == tr.t(xs[j])))
    # axioms introduced by translating the above
    cl = tr.closure(roots)
    for k in cl:
        out += cl[k]
    return out


def guarded_check(s, budget):
    try:
        return str(s.check())
    except z3.Z3Exception as e:
        return "unknown"
