"""Loop handling: concrete iteration while the exit is decided, otherwise a
summary valid for every iteration (closed forms of the loop variables, range
updates of memory), otherwise bounded unrolling (reported)."""
import os
from fractions import Fraction
from term import *
from exec import *
import exec as X


class Rec:
    __slots__ = ("snap", "L", "f", "uid", "b", "vals", "done", "failed", "depth", "why")


class Act:
    __slots__ = ("rec", "count", "und", "depth", "final")

    def __init__(self, rec, count, und, final=False):
        self.rec, self.count, self.und, self.depth, self.final = rec, count, und, rec.depth, final


class Marker:
    __slots__ = ("depth", "header", "bs", "exits")

    def __init__(self, depth, header, bs):
        self.depth, self.header, self.bs, self.exits = depth, header, bs, []


def on_edge(ex, s, fr, b, vals):
    depth = len(s.frames)
    if s.markers:
        m = s.markers[-1]
        if m.depth == depth:
            if b == m.header:
                return ("back", s, vals)
            if b not in m.bs:
                for d, v in vals:
                    fr.regs[d] = v
                fr.prev, fr.b, fr.ip = fr.b, b, fr.f.phis[b]
                return ("exit", s, None)
    while s.loops and s.loops[-1].depth == depth and (s.loops[-1].rec.uid != fr.uid or b not in s.loops[-1].rec.L["bs"]):
        s.loops.pop()
    L = fr.f.hdr.get(b)
    if L is None:
        return None
    if s.loops and s.loops[-1].depth == depth and s.loops[-1].rec.L is L:
        a = s.loops[-1]
        if a.rec.done and not a.final:
            raise PathEnd("dup")
        if a.final:
            raise Unsupported("summarised loop did not exit")
        if a.und > ex.bound or a.count > 20000:
            ex.bounded.add("%s: loop unrolled %d times (%s)" % (short(fr.f.name), ex.bound, a.rec.why or "iteration limit"))
            raise PathEnd("bounded")
        s.loops[-1] = Act(a.rec, a.count + 1, a.und)
        return None
    r = Rec()
    r.L, r.f, r.uid, r.b, r.depth, r.done, r.failed, r.why = L, fr.f, fr.uid, b, depth, False, False, None
    r.vals = vals
    r.snap = ex.fork(s)
    s.loops.append(Act(r, 0, 0))
    return None


def on_undecided(ex, s, c):
    if not s.frames or not s.loops:
        return None
    fr = s.frames[-1]
    a = s.loops[-1]
    if a.depth != len(s.frames) or a.rec.uid != fr.uid or a.final:
        return None
    ins = fr.f.blocks[fr.b][fr.ip]
    if ins[0] != "br" or len(ins) < 5:
        return None
    bs = a.rec.L["bs"]
    early = ins[3] in bs and ins[4] in bs
    if early and (a.count or a.rec.failed or a.rec.done or ex.concrete_loops.get((fr.f.name, a.rec.b))):
        return None
    # s.markers on an enclosing level is fine; the same level is handled there
    if s.markers and s.markers[-1].depth == len(s.frames) and s.markers[-1].header == a.rec.b:
        return None
    rec = a.rec
    if rec.done:
        return []
    if not rec.failed:
        try:
            st = summarise(ex, rec, early)
            rec.done = True
            ex.summ_ok += 1
            return st
        except Concrete:
            ex.concrete_loops[(fr.f.name, rec.b)] = True
            return None
        except Unsupported as e:
            if early:
                ex.concrete_loops[(fr.f.name, rec.b)] = True
                return None
            rec.failed = True
            rec.why = str(e)
            ex.note("loop not summarised in %s: %s" % (short(fr.f.name), e))
        except ForkOn as e:
            if early:
                ex.concrete_loops[(fr.f.name, rec.b)] = True
                return None
            rec.failed = True
            rec.why = "undecided in summary"
        except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
            rec.failed = True
            rec.why = "internal " + repr(e)
            ex.note("loop not summarised in %s: %r" % (short(fr.f.name), e))
    s.loops[-1] = Act(rec, a.count, a.und + 1)
    return None


# ------------------------------------------------------------------ recorder


class Log:
    """persistent log of memory effects of one path of a loop body"""
    __slots__ = ("entry", "up", "base")

    def __init__(self, entry, up, base):
        self.entry, self.up, self.base = entry, up, base

    def plus(self, s, e):
        s.rec = Log(e, self, self.base)

    def on_write(self, s, rid, o, size, v):
        if rid.__class__ is str or rid <= self.base:
            self.plus(s, ("w", rid, o, size, v))

    def on_read(self, s, rid, o, size, v):
        if rid.__class__ is str or rid <= self.base:
            if rid.__class__ is str:
                g = s.mem.get(rid)
            self.plus(s, ("r", rid, o, size))

    def on_copy(self, s, d, p, n):
        if d.r.__class__ is str or d.r <= self.base:
            self.plus(s, ("cw", d.r, d.o, n))
        if p is not None and (p.r.__class__ is str or p.r <= self.base):
            self.plus(s, ("r", p.r, p.o, n))

    def on_rng(self, s, rid, layer):
        if rid.__class__ is str or rid <= self.base:
            self.plus(s, ("rng", rid, layer))

    def on_free(self, s, rid):
        if rid <= self.base:
            raise Unsupported("free of outer memory in loop")

    def list(self):
        out = []
        n = self
        while n is not None and n.entry is not None:
            out.append(n.entry)
            n = n.up
        out.reverse()
        return out


def simp(ex, s, t, depth=0):
    """resolve comparisons decided by the path condition"""
    if not isT(t):
        return t
    memo = {}

    def go(x):
        if not isT(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "var":
            r = x
        elif x.op == "ite":
            c = go(x.args[0])
            q = ex.quiet(s, c)
            r = go(x.args[1]) if q is True else go(x.args[2]) if q is False else ite(c, go(x.args[1]), go(x.args[2]))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


def mentions(v, syms):
    if isT(v):
        return bool(fv(v) & syms)
    if v.__class__ is Ptr:
        return isT(v.o) and bool(fv(v.o) & syms)
    if v.__class__ is list:
        return any(mentions(x, syms) for x in v)
    return False


def newvars(v, mark, allow):
    if isT(v):
        return [x for x in fv(v) if x.id > mark and x not in allow]
    if v.__class__ is Ptr:
        return newvars(v.o, mark, allow)
    return []


class Phi:
    """a loop-carried variable: SSA phi or fixed memory cell"""
    __slots__ = ("key", "init", "sym", "kind", "reg", "next", "closed", "step")

    def __init__(self, key, init):
        self.key, self.init = key, init
        self.closed = None
        self.sym = self.reg = None
        v = init
        if isinstance(v, bool) or (isT(v) and v.sort == "B"):
            self.kind, self.sym = "B", fresh("phi", "B")
        elif isinstance(v, int) or (isT(v) and v.sort == "I"):
            self.kind, self.sym = "I", fresh("phi", "I")
        elif isinstance(v, Fraction) or (isT(v) and v.sort == "R"):
            self.kind, self.sym = "R", fresh("phi", "R")
        elif v.__class__ is Ptr:
            self.kind, self.sym, self.reg = "P", fresh("phi", "I"), v.r
        else:
            self.kind = "X"  # undef / special / function pointer

    def value(self):
        if self.kind == "P":
            return Ptr(self.reg, self.sym)
        if self.kind in "XG":
            return self.init
        return self.sym

    def init_num(self):
        return self.init.o if self.kind == "P" else self.init

    def num(self, v):
        """numeric part of a next value, None when the shape differs"""
        if self.kind == "P":
            if v.__class__ is not Ptr or v.r != self.reg:
                return None
            return v.o
        if self.kind == "I":
            if v.__class__ is bool:
                return None
            if isinstance(v, int) or (isT(v) and v.sort == "I"):
                return v
            return None
        if self.kind == "R":
            if v.__class__ is int and v == 0:
                return Fraction(0)
            return v if isinstance(v, Fraction) or (isT(v) and v.sort == "R") else None
        if self.kind == "B":
            return v if isinstance(v, bool) or (isT(v) and v.sort == "B") else None
        return None

    def wrap_num(self, n):
        return Ptr(self.reg, n) if self.kind == "P" else n


def start(ex, rec, phis, k_facts=()):
    """state at the loop header with phis set to the given values"""
    s = ex.fork(rec.snap)
    fr = s.frames[-1]
    base = X._ctr[0]
    s.rec = Log(None, None, base)
    s.markers.append(Marker(rec.depth, rec.b, rec.L["bs"]))
    # inside the run the loop itself is not 'active'
    for key, v in phis:
        if key[0] == "phi":
            fr.regs[key[1]] = v
        else:
            _, rid, off, size = key
            r = ex.wregion(s, rid)
            if not isT(off):
                r.cells[off] = (size, v)
            else:
                ex.flush(r)
                r.below = (("pt", off, size, v), r.below)
    fr.prev, fr.b, fr.ip = fr.b, rec.b, rec.f.phis[rec.b]
    for c in k_facts:
        ex.assume(s, c)
    return s


def reloaded(f, L, header):
    """loop phis that are re-read from memory in every iteration"""
    loads = {i[1] for b in L["bs"] for i in f.blocks[b] if i[0] == "load"}
    out = set()
    for ins in f.blocks[header][:f.phis[header]]:
        inc = [pv for pb, pv in ins[3] if pb in L["bs"]]
        if inc and all(v.__class__ is int and v in loads for v in inc):
            out.add(ins[1])
    return out


def same(a, b):
    if a.__class__ is Ptr and b.__class__ is Ptr:
        return a.r == b.r and (a.o is b.o or (not isT(a.o) and a.o == b.o))
    return a is b or (not isT(a) and not isT(b) and a.__class__ is b.__class__ and a == b)


class Concrete(Exception):
    """the trip count is known: iterate"""


def summarise(ex, rec, early=False):
    obs0, keys0, bounded0 = list(ex.obs), set(ex.obkeys), set(ex.bounded)
    try:
        return summarise_(ex, rec, early)
    except (Unsupported, ForkOn, PathEnd, Concrete) as e:
        ex.obs[:] = obs0
        ex.obkeys = keys0
        ex.bounded = bounded0
        if isinstance(e, PathEnd):
            raise Unsupported("summary path " + e.why)
        raise
    except (TypeError, AttributeError, KeyError, IndexError, ValueError):
        if os.environ.get("TB"):
            import traceback
            traceback.print_exc()
        ex.obs[:] = obs0
        ex.obkeys = keys0
        ex.bounded = bounded0
        raise


def summarise_(ex, rec, early):
    snap = rec.snap
    f, L = rec.f, rec.L
    cells = {}  # memory phis
    guess = reloaded(f, L, rec.b)
    # ---- phase A: shapes of the recurrences
    for attempt in range(12):
        phis = [Phi(("phi", d), v) for d, v in rec.vals]
        for p in phis:
            if p.key[1] in guess:  # guessed invariant, checked below
                p.sym, p.kind, p.closed = None, "G", p.init
        for key in cells:
            _, rid, off, size = key
            r = ex.region(snap, Ptr(rid, off))
            v = ex.raw_load(snap, r, off, size)
            p = Phi(key, cells[key] if v.__class__ is int and v == 0 and cells[key] is not None and False else v)
            if p.kind == "I" and v.__class__ is int and v == 0 and cells[key] == "R":
                p = Phi(key, Fraction(0))
            phis.append(p)
        mark = X_nid()
        syms = frozenset(p.sym for p in phis if p.sym is not None)
        s = start(ex, rec, [(p.key, p.value()) for p in phis])
        base = s.rec.base
        save = (list(ex.obs), set(ex.obkeys))
        outs = run_body(ex, s)
        ex.obs[:] = save[0]
        ex.obkeys = save[1]
        new = False
        for kind, st, vals in outs:
            for e in st.rec.list():
                if e[0] == "w":
                    _, rid, o, size, v = e
                    if mentions(o, syms) or newvars(o, mark, ()):
                        continue
                    key = ("mem", rid, o, size)
                    if key not in cells:
                        cells[key] = "R" if (isinstance(v, Fraction) or (isT(v) and v.sort == "R")) else None
                        new = True
            if kind == "back":
                for d, v in vals:
                    if d in guess and not same(v, next(p.init for p in phis if p.key[1] == d)):
                        guess.discard(d)
                        new = True
        if not new:
            break
    else:
        raise Unsupported("loop memory does not stabilise")
    backs = [(st, vals) for kind, st, vals in outs if kind == "back"]
    if not backs:
        raise Unsupported("no back edge taken")
    npc = len(snap.pc)

    def nexts(p):
        res = []
        for st, vals in backs:
            if p.key[0] == "phi":
                v = dict(vals)[p.key[1]]
            else:
                _, rid, off, size = p.key
                v = ex.raw_load(st, ex.region(st, Ptr(rid, off)), off, size)
            res.append(v)
        return res

    k = fresh("k", "I")
    sub_k = {}
    facts = [le(0, k)]
    for p in phis:
        if p.kind in ("I", "P"):
            ds = []
            for v in nexts(p):
                n = p.num(v)
                ds.append(None if n is None else sub(n, p.sym))
            d = ds[0]
            if d is not None and all(x is d or (not isT(x) and x == d) for x in ds) and not mentions(d, syms) and not newvars(d, mark, ()):
                p.step = d
                p.closed = add(p.init_num(), mul(d, k))
                sub_k[p.sym] = p.closed
                continue
            # ite-shaped steps of equal value
    for p in phis:
        if p.closed is None and p.kind == "R":
            ds = []
            for v in nexts(p):
                n = p.num(v)
                ds.append(None if n is None else sub(n, p.sym))
            d = ds[0]
            if d is not None and all(x is d or (not isT(x) and x == d) for x in ds) and not mentions(d, syms) and not newvars(d, mark, ()):
                p.closed = add(p.init, mul(d, toreal(k)))
                sub_k[p.sym] = p.closed
    # ---- exit condition
    fs = ex.fork(snap)
    for c in facts:
        ex.assume(fs, c)
    E = None
    for kind, st, vals in outs:
        for (cond, pol) in st.flags.get("exits:%d" % rec.uid, ()):
            t = cond if pol else bnot(cond)
            if not isT(t):
                continue
            t = subst(t, sub_k)
            t = simp(ex, fs, t)
            if not isT(t):
                continue
            if k not in fv(t):
                continue
            if E is None or E is t:
                E = t
            elif E is not t:
                # several exits: keep the one that is linear in k
                E = E if solve_exit(ex, fs, E, k) is not None else t
    if E is None:
        raise Unsupported("no exit condition in terms of the iteration count")
    N = solve_exit(ex, fs, E, k)
    if N is None:
        raise Unsupported("exit condition %s not solvable" % show(E)[:200])
    if early and not isT(N):
        raise Concrete()
    if ex.quiet(snap, le(0, N)) is not True:
        raise Unsupported("trip count sign unknown: %s" % show(N)[:200])
    if mentions(N, syms):
        raise Unsupported("trip count depends on loop state")
    # ---- phase B: generic iteration 0<=k<N
    kf = [le(0, k), lt(k, N), bnot(E)]
    start_vals = []
    open_ = []
    for p in phis:
        if p.closed is not None:
            start_vals.append((p.key, p.wrap_num(p.closed)))
        else:
            open_.append(p)
            start_vals.append((p.key, p.value()))
    mark = X_nid()
    n_obs = len(ex.obs)
    s = start(ex, rec, start_vals, kf)
    base = s.rec.base
    outs = run_body(ex, s)
    for kind, st, vals in outs:
        if kind != "back":
            raise Unsupported("loop may leave early (%s)" % kind)
    backs = [(st, vals) for kind, st, vals in outs]
    if not backs:
        raise Unsupported("generic iteration has no path")
    osyms = frozenset(p.sym for p in open_ if p.sym is not None)
    # path conditions of each body path, relative to the header
    head = list(s0 for s0 in backs[0][0].pc[:npc])
    base_conds = set(x for x in snap.pc)
    for c in kf:
        if isT(c):
            base_conds.add(c)
    rel = []
    for st, vals in backs:
        cs = [c for c in st.pc if c not in base_conds]
        cs = [c for c in cs if not defin(c)]
        rel.append(band(*cs) if len(backs) > 1 else True)
    for p in phis:
        if p.kind == "G":
            for st, vals in backs:
                if not same(dict(vals)[p.key[1]], p.init):
                    raise Unsupported("invariant guess failed")
    # ---- recurrences of the open variables
    sub_o = {}
    pend = list(open_)
    at = {}
    for p in pend:
        vs = []
        for st, vals in backs:
            if p.key[0] == "phi":
                v = dict(vals)[p.key[1]]
            else:
                _, rid, off, size = p.key
                v = ex.raw_load(st, ex.region(st, Ptr(rid, off)), off, size)
            vs.append(v)
        at[p] = vs
    used = set()
    for st, vals in backs:
        for c in st.pc[npc:]:
            used |= fv(c)
        for e in st.rec.list():
            if e[0] == "w" and e[4].__class__ is not str:
                used |= fvv(e[4]) | fvv(e[2])
    for o in ex.obs[n_obs:]:
        used |= fvv(o.goal)
        for c in o.pc:
            used |= fv(c)
    for p in pend:
        for v in at[p]:
            used |= fvv(v)
    finals = {}
    todo = list(pend)
    for rnd in range(len(todo) + 1):
        left = []
        for p in todo:
            r = recurrence(ex, p, at[p], rel, k, N, osyms, sub_o, mark)
            if r is None:
                left.append(p)
                continue
            p.closed = r
            if p.sym is not None:
                sub_o[p.sym] = r.o if r.__class__ is Ptr else r
        if len(left) == len(todo):
            break
        todo = left
    for p in list(todo):
        # a temporary that is never read before it is written
        if p.sym is None or p.sym not in used or only_self(p, at, used):
            p.closed = UNDEF
        else:
            raise Unsupported("recurrence of a loop variable not solved: %s -> %s" % (show(p.sym) if p.sym else p.key, show(at[p][0]) if isT(at[p][0]) else at[p][0]))
    subo = sub_o
    # ---- memory ranges
    ranges = []
    for (st, vals), cond in zip(backs, rel):
        if cond is not True:
            cond = subst(cond, subo)
            if newvars(cond, mark, (k,)):
                raise Unsupported("path condition depends on fresh values")
            if fv(cond) & osyms:
                raise Unsupported("branch on an accumulated value")
        final_w = {}
        for e in st.rec.list():
            if e[0] == "cw" or e[0] == "rng":
                raise Unsupported("block write inside a symbolic loop")
            if e[0] != "w":
                continue
            _, rid, o, size, v = e
            key = ("mem", rid, o, size)
            if any(p.key == key for p in phis):
                continue
            if not isT(o) or k not in fv(o):
                # fixed location, not discovered in phase A
                raise Unsupported("fixed location written in loop: %r %s" % (rid, o))
            final_w.pop((rid, o, size), None)
            final_w[(rid, o, size)] = v
        for (rid, o, size), v in final_w.items():
            if v.__class__ is Ptr and v.r is not None and v.r.__class__ is not str and v.r > base:
                raise Unsupported("loop allocates memory that survives")
            v = substv(v, subo) if subo else v
            if v.__class__ is str:
                pass
            elif newvars(v, mark, (k,)):
                raise Unsupported("loop writes a fresh value %s" % (show(v)[:300] if isT(v) else v))
            if isT(v) and fv(v) & osyms:
                raise Unsupported("open value written")
            a0 = subst(o, {k: 0})
            stp = sub(subst(o, {k: 1}), a0)
            if isT(stp) or stp == 0 or abs(stp) < size:
                raise Unsupported("write stride")
            if sub(add(a0, mul(stp, k)), o) != 0:
                raise Unsupported("non-affine write offset")
            ranges.append((rid, o, size, v, cond, stp))
    # ---- no loop-carried flow through memory
    j = fresh("j", "I")
    chk = ex.fork(snap)
    for c in (le(0, k), lt(k, N), le(0, j), lt(j, k)):
        ex.assume(chk, c)
    for st, vals in backs:
        for e in st.rec.list():
            if e[0] != "r":
                continue
            _, rid, o, size = e
            for (wr, wo, wsz, wv, wc, stp) in ranges:
                if wr != rid:
                    continue
                d = sub(o, wo)
                if not isT(d) and not isT(size):
                    # same stride: conflict iff d == -stp*(k-j)
                    if d == 0 or (d % stp) or (-d // stp) < 1:
                        if d % stp == 0 or (abs(d) % abs(stp) >= wsz) or True:
                            if d == 0 or d % stp == 0:
                                continue
                woj = subst(wo, {k: j})
                c = bor(le(add(woj, wsz), o), le(add(o, size), woj))
                if ex.quiet(chk, c) is not True:
                    raise Unsupported("loop-carried dependence through memory")
    # overlapping writes of different iterations would need an order
    for i1, w1 in enumerate(ranges):
        for w2 in ranges[i1 + 1:]:
            if w1[0] != w2[0] or (w1[1] is w2[1]):
                continue
            for (x, y) in ((w1, w2), (w2, w1)):
                yo = subst(y[1], {k: j})
                c = bor(le(add(yo, y[2]), x[1]), le(add(x[1], x[2]), yo))
                if ex.quiet(chk, c) is not True:
                    raise Unsupported("overlapping writes of different iterations")
    # obligations raised in the body mention open symbols: substitute
    for o in ex.obs[n_obs:]:
        if subo:
            o.pc = tuple(x for x in (subst(c, subo) for c in o.pc) if isT(x))
            o.goal = subst(o.goal, subo) if isT(o.goal) else o.goal
        g = set(fvv(o.goal))
        for c in o.pc:
            g |= fv(c)
        if g & osyms:
            raise Unsupported("obligation on an open loop value")
    # ---- state before the final, leaving iteration (k = N)
    r = ex.fork(snap)
    for (rid, o, size, v, cond, stp) in ranges:
        kk = fresh("k", "I")
        m = {k: kk}
        layer = ("rng", (kk,), (N,), subst(o, m), size, substv(v, m), cond if cond is True else subst(cond, m))
        rg = ex.wregion(r, rid)
        ex.flush(rg)
        rg.below = (layer, rg.below)
        if r.rec is not None:
            r.rec.on_rng(r, rid, layer)
    fr = r.frames[-1]
    mN = {k: N}
    for p in phis:
        v = p.closed
        if v.__class__ is Ptr:
            v = Ptr(v.r, subst(v.o, mN) if isT(v.o) else v.o)
        elif isT(v):
            v = subst(v, mN)
            if p.kind == "P":
                v = Ptr(p.reg, v)
        elif p.kind == "P" and v is not UNDEF and v.__class__ is not Ptr:
            v = Ptr(p.reg, v)
        if p.key[0] == "phi":
            fr.regs[p.key[1]] = v
        else:
            _, rid, off, size = p.key
            ex.raw_store(r, rid, off, size, v)
    fr.prev, fr.b, fr.ip = fr.b, rec.b, rec.f.phis[rec.b]
    EN = subst(E, mN)
    if isT(EN):
        q = ex.quiet(r, EN)
        if q is False:
            raise Unsupported("exit condition inconsistent")
        ex.fact(r, EN)
    elif not EN:
        raise Unsupported("exit condition false at the trip count")
    a = Act(rec, 0, 0, True)
    r.loops.append(a)
    return [r]


def fvv(v):
    if isT(v):
        return fv(v)
    if v.__class__ is Ptr and isT(v.o):
        return fv(v.o)
    return frozenset()


def only_self(p, at, used):
    return False


def defin(c):
    return False


def X_nid():
    import term
    return term._nid[0]


def run_body(ex, s):
    """all paths of one iteration: [(kind,state,vals)]"""
    outs = ex.explore([s], count=False)
    res = []
    for o in outs:
        kind = o[0]
        if kind == "back":
            res.append(("back", o[1], o[2]))
        elif kind == "exit":
            res.append(("exit", o[1], None))
        elif kind in ("oob", "null", "uaf"):
            continue
        else:
            res.append((kind, o[1], None))
    return res


A_, K_ = var("A!", "R"), var("K!", "I")


def recurrence(ex, p, vs, rel, k, N, osyms, sub_o, mark):
    """closed form (a function of k) of an open variable, or None"""
    if p.kind == "X":
        return None
    ns = [p.num(v) for v in vs]
    if any(n is None for n in ns):
        return None
    nxt = ns[-1]
    for n, c in list(zip(ns, rel))[-2::-1]:
        if c is True:
            return None
        nxt = ite(c, n, nxt)
    nxt = subst(nxt, sub_o) if isT(nxt) else nxt
    fvs = fvv(nxt)
    others = (fvs & osyms) - {p.sym}
    if others:
        return None
    if newvars(nxt, mark, (k,)):
        return None
    if p.sym not in fvs:
        # shift register: value of the previous iteration
        if not isT(nxt) or k not in fvs:
            prev = nxt
        else:
            prev = subst(nxt, {k: sub(k, 1)})
        return p.wrap_num(ite(eq(k, 0), p.init_num(), prev))
    if nxt is p.sym:
        return p.init
    if p.kind != "R" and p.kind != "I":
        return None
    d = sub(nxt, p.sym)
    if not isT(d) or (p.sym not in fv(d) and k not in fv(d)):
        return add(p.init, mul(d, toreal(k) if p.kind == "R" else k))
    if p.kind != "R":
        return None
    # uninterpreted accumulator, named after its recurrence
    body = subst(nxt, {p.sym: A_, k: K_})
    ps = sorted(fv(body) - {A_, K_, PI})
    canon = {v: var("P%d!%s" % (i, v.sort), v.sort) for i, v in enumerate(ps)}
    key = subst(body, canon)
    name = "acc!%d" % key.id
    ACC[name] = (key, [canon[v] for v in ps])
    return app(name, (k, p.init) + tuple(ps), "R")


ACC = {}


def solve_exit(ex, s, E, k):
    """first k>=0 with E(k), as a term; None when not solvable"""
    op = E.op
    if op not in ("eq0", "le0", "lt0"):
        if op == "or":
            # exit when any holds: not supported
            return None
        return None
    p = E.args[0]
    if p.sort == "R":
        b = subst(p, {k: 0})
        a = sub(subst(p, {k: 1}), b)
        if k in fvv(a) or k in fvv(b):
            return None
        if isT(sub(add(b, mul(a, toreal(k))), p)) or sub(add(b, mul(a, toreal(k))), p) != 0:
            return None
        if op == "eq0" or ex.quiet(s, lt(a, Fraction(0))) is not True:
            return None
        x = div(b, neg(a))
        n = neg(floor(neg(x))) if op == "le0" else add(floor(x), 1)
        if ex.quiet(s, le(0, n)) is True:
            return n
        return ite(le(0, n), n, 0)
    b = subst(p, {k: 0})
    a = sub(subst(p, {k: 1}), b)
    if isT(a):
        if k in fv(a):
            return None
    if sub(add(b, mul(a, k)), p) != 0:
        return None
    if isT(a):
        if op != "eq0":
            return None
        q = divide_sym(neg(b), a)
        return q
    if a == 0:
        return None
    if op == "eq0":
        q = divide_poly(neg(b), a)
        return q
    if op == "lt0":
        b = add(b, 1)
        op = "le0"
    if a > 0:
        return None
    m = -a
    n = b if m == 1 else idiv(add(b, m - 1), m)
    if ex.quiet(s, le(0, n)) is True:
        return n
    return ite(le(0, n), n, 0)
