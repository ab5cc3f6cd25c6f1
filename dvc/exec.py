"""Symbolic execution of the real code's IR -> verification conditions.

Every path through a contract is followed for symbolic inputs; each ensures(),
memory access and arithmetic definedness point on a path yields an obligation
(path condition => goal).  Loops whose trip count is symbolic are summarised
(loops.py); when that is not possible they are unrolled to a bound and the
contract is reported as bounded.
"""
import re
import struct
from fractions import Fraction
from term import *
from ir import fconst, decimal
from smt import Feas

POS, NEGI, NAN = "inf", "-inf", "nan"


def ite_leaves(v, f):
    """f applied to the leaves of a choice between integer constants; None if
    the term is anything else"""
    if v.__class__ is int:
        return f(v)
    if isT(v) and v.op == "ite":
        a = ite_leaves(v.args[1], f)
        if a is None:
            return None
        b = ite_leaves(v.args[2], f)
        return None if b is None else ite(v.args[0], a, b)
    return None


class Unsupported(Exception):
    pass


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __repr__(self):
        return "&%s+%s" % (self.r, self.o)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class Undef:
    __slots__ = ()


NULL = Ptr(None, 0)
UNDEF = Undef()


class PtrIte:
    """guarded pointer: list of (cond,value); conditions exclusive & exhaustive"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class Reg:
    __slots__ = ("id", "name", "size", "cells", "below", "tok", "kind", "base", "dead", "gen")

    def copy(self, tok):
        n = Reg()
        n.id, n.name, n.size, n.below, n.kind, n.base, n.dead, n.gen = (
            self.id, self.name, self.size, self.below, self.kind, self.base, self.dead, self.gen)
        n.cells = dict(self.cells)
        n.tok = tok
        return n


class Frame:
    __slots__ = ("f", "b", "ip", "prev", "regs", "dest", "inv", "allocas", "uid", "caller_b")

    def copy(self):
        n = Frame()
        n.f, n.b, n.ip, n.prev, n.dest, n.inv, n.uid = self.f, self.b, self.ip, self.prev, self.dest, self.inv, self.uid
        n.regs = list(self.regs)
        n.allocas = list(self.allocas)
        n.caller_b = self.caller_b
        return n


class State:
    __slots__ = ("frames", "mem", "tok", "pc", "known", "loops", "markers", "exc", "flags", "forks", "seq", "facts", "rec")


def width(t):
    return int(t[1:])


def wrap(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


_ctr = [0]


def uid():
    _ctr[0] += 1
    return _ctr[0]


class Ob:
    __slots__ = ("label", "kind", "pc", "goal", "where", "facts")

    def __init__(self, label, kind, pc, goal, where):
        self.label, self.kind, self.pc, self.goal, self.where = label, kind, pc, goal, where


class Exec:
    MAXPATHS = 4000

    def __init__(self, mod, bound=8, verbose=False):
        self.m = mod
        self.feas = Feas()
        self.obs = []
        self.bound = bound
        self.verbose = verbose
        self.unsup = []
        self.bounded = set()
        self.assumed = set()
        self.externs = set()
        self.concrete_loops = {}
        self.reached = set()
        self.covers = set()
        self.allcovers = set()
        self.paths = 0
        self.steps = 0
        self.inputs = {}
        self.inames = {}
        self.summ_ok = 0
        self.obkeys = set()
        self.lemmas_used = set()
        self.trace_names = []
        import ext
        self.ext = ext.build(self)

    # ------------------------------------------------------------ state
    def new_state(self):
        s = State()
        s.frames, s.mem, s.tok, s.pc, s.known = [], {}, object(), [], {}
        s.loops, s.markers, s.exc, s.flags, s.forks, s.seq = [], [], None, {}, 0, 0
        s.facts = []
        s.rec = None
        return s

    def note(self, msg):
        self.notes = getattr(self, "notes", set())
        if msg not in self.notes and self.verbose:
            print("  " + msg)
        self.notes.add(msg)

    def fork(self, s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.tok = object()
        s.tok = object()  # both sides copy on write from now on
        n.pc = list(s.pc)
        n.known = dict(s.known)
        n.loops = list(s.loops)
        n.markers = list(s.markers)
        n.exc = s.exc
        n.flags = dict(s.flags)
        n.forks, n.seq = s.forks, s.seq
        n.facts = list(s.facts)
        n.rec = s.rec
        return n

    def assume(self, s, c):
        """add to the path condition; PathEnd when contradictory"""
        if not isT(c):
            if not c:
                raise PathEnd("infeasible")
            return
        if c.op == "and":
            for x in c.args:
                self.assume(s, x)
            return
        k = s.known.get(c)
        if k is True:
            return
        if k is False:
            raise PathEnd("infeasible")
        s.pc.append(c)
        s.known[c] = True
        n = bnot(c)
        if isT(n):
            s.known[n] = False

    def quiet(self, s, c):
        """True/False/None: is c decided by the path condition"""
        if not isT(c):
            return bool(c)
        k = s.known.get(c)
        if k is not None:
            return k
        n = bnot(c)
        if not isT(n):
            return not n
        if not self.feas.check(s.pc, n):
            s.known[c] = True
            s.known[n] = False
            return True
        if not self.feas.check(s.pc, c):
            s.known[c] = False
            s.known[n] = True
            return False
        return None

    def decide(self, s, c):
        r = self.quiet(s, c)
        if r is None:
            raise ForkOn(c)
        return r

    # ------------------------------------------------------------ memory
    def alloc(self, s, size, name, kind):
        r = Reg()
        r.id = uid()
        r.name, r.size, r.cells, r.below, r.tok, r.kind, r.base, r.dead = name, size, {}, None, s.tok, kind, None, False
        r.gen = 0
        s.mem[r.id] = r
        return Ptr(r.id, 0)

    def region(self, s, p):
        r = s.mem.get(p.r)
        if r is None:
            r = self.lazy_global(s, p.r)
        return r

    def wregion(self, s, rid):
        r = s.mem.get(rid)
        if r is None:
            r = self.lazy_global(s, rid)
        if r.tok is not s.tok:
            r = r.copy(s.tok)
            s.mem[rid] = r
        return r

    def lazy_global(self, s, name):
        """globals are regions keyed by name"""
        if name.__class__ is not str:
            raise Unsupported("dangling region %r" % (name,))
        g = self.m.glob(name) if name[0] != "$" else None
        r = Reg()
        r.id, r.name, r.cells, r.below, r.tok, r.kind, r.base, r.dead, r.gen = name, name, {}, None, s.tok, "global", None, False, 0
        if g is None and name not in ("$iosvt", "$ctype", "$ssvt128", "$ssvt112"):
            raise Unsupported("unknown global " + name)
        r.size = g.size if g else 1 << 20
        if g is None:
            r.below = (("ext",), None)
            s.mem[name] = r
            return r
        if g.init:
            r.below = (("fill", 0, g.size), None)
            for off, sz, c in g.cells:
                r.cells[off] = (sz, self.const(c))
        else:
            r.size = 1 << 20
            r.below = (("ext",), None)
        s.mem[name] = r
        return r

    def ptr_of(self, s, v):
        if v.__class__ is Ptr:
            return v
        if v.__class__ is PtrIte:
            for c, x in v.alts[:-1]:
                if self.decide(s, c):
                    return self.ptr_of(s, x)
            return self.ptr_of(s, v.alts[-1][1])
        if isT(v) or isinstance(v, int):
            return self.int2ptr(s, v)
        if v is UNDEF:
            raise Unsupported("undef pointer")
        raise Unsupported("pointer %r" % (v,))

    def int2ptr(self, s, v):
        if not isT(v):
            return Ptr(None, v)
        p = to_poly(v)
        for m, c in p.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and m[0][0].args[0].startswith("addr!"):
                rid = self.addr_of[m[0][0]]
                return Ptr(rid, sub(v, m[0][0]))
        raise Unsupported("int to pointer %s" % show(v))

    addr_of = {}

    def ptr2int(self, s, v):
        p = self.ptr_of(s, v) if v.__class__ is not Ptr else v
        if p.r is None:
            return p.o
        a = var("addr!%s" % p.r, "I")
        self.addr_of[a] = p.r
        return add(a, p.o)

    def bounds(self, s, p, size, what):
        if p.__class__ is FnPtr:
            raise Unsupported("data access to function")
        if p.r is None:
            self.oblige(s, "memory: null or wild pointer " + what, "memory", False)
            raise PathEnd("null")
        r = self.region(s, p)
        if r.dead:
            self.oblige(s, "memory: access after free " + what, "memory", False)
            raise PathEnd("uaf")
        o = p.o
        if not isT(o) and not isT(r.size):
            if o < 0 or o + size > r.size:
                self.oblige(s, "memory: out-of-bounds " + what, "memory", False)
                raise PathEnd("oob")
            return r
        c = band(le(0, o), le(add(o, size), r.size))
        if self.quiet(s, c) is not True:
            self.oblige(s, "memory: in-bounds " + what, "memory", c)
            self.assume(s, c)
        else:
            self.implicit += 1
        return r

    implicit = 0

    def where(self, s):
        if not s.frames:
            return "?"
        return s.frames[-1].f.name

    def store(self, s, p, size, v, t=None):
        self.bounds(s, p, size, "write")
        if t is not None and isinstance(t, list):
            self.store_agg(s, p, v, t)
            return
        self.raw_store(s, p.r, p.o, size, v)

    def store_agg(self, s, p, v, t):
        if t[0] == "s":
            for i, (off, et) in enumerate(t[1:]):
                self.store_one(s, p, off, v[i] if v is not UNDEF else UNDEF, et)
        else:
            for i in range(t[1]):
                self.store_one(s, p, i * t[2], v[i] if v is not UNDEF else UNDEF, t[3])

    def store_one(self, s, p, off, v, et):
        if isinstance(et, list):
            self.store_agg(s, Ptr(p.r, add(p.o, off)), v, et)
        else:
            self.raw_store(s, p.r, add(p.o, off), tsize(et), v)

    def raw_store(self, s, rid, o, size, v):
        if s.rec is not None:
            s.rec.on_write(s, rid, o, size, v)
        r = self.wregion(s, rid)
        if not isT(o):
            c = r.cells.get(o)
            if c is not None and c[0] == size:
                r.cells[o] = (size, v)
                return
            for k in range(o - 7, o + size):
                c = r.cells.get(k)
                if c is not None and k + c[0] > o:
                    if k < o or k + c[0] > o + size:
                        # partial overwrite: split concrete bytes
                        self.split(r, k)
            for k in range(o, o + size):
                r.cells.pop(k, None)
            r.cells[o] = (size, v)
            return
        # symbolic offset: may alias any cell
        self.flush(r)
        r.below = (("pt", o, size, v), r.below)
        self.try_extend(s, r)

    def split(self, r, k):
        sz, v = r.cells[k]
        if isT(v) or v.__class__ is not int:
            if v is UNDEF:
                del r.cells[k]
                return
            raise Unsupported("partial overwrite")
        v &= (1 << (8 * sz)) - 1
        del r.cells[k]
        for i in range(sz):
            r.cells[k + i] = (1, wrap((v >> (8 * i)) & 255, 8))

    def flush(self, r):
        if r.cells:
            r.below = (("cells", r.cells), r.below)
            r.cells = {}

    def try_extend(self, s, r):
        """pt written right behind a rng layer it continues: extend the range"""
        (k, o, size, v), rest = r.below
        # skip over independent rng layers
        node = rest
        skipped = []
        while node is not None and node[0][0] == "rng":
            _, vs, ns, off, sz, val, cond = node[0]
            if len(vs) == 1 and sz == size and cond is True:
                m = {vs[0]: ns[0]}
                if self.same(s, subst(off, m), o) and self.vsame(s, subst(val, m) if isT(val) else val, v):
                    new = (("rng", vs, (add(ns[0], 1),), off, sz, val, cond), node[1])
                    for l in reversed(skipped):
                        new = (l, new)
                    r.below = new
                    return
            skipped.append(node[0])
            if len(skipped) > 4:
                return
            node = node[1]

    def same(self, s, a, b):
        if a is b:
            return True
        e = eq(a, b)
        if not isT(e):
            return e
        return False

    def vsame(self, s, a, b):
        if a is b:
            return True
        if a.__class__ is Ptr or b.__class__ is Ptr:
            return a.__class__ is b.__class__ and a.r == b.r and self.same(s, a.o, b.o)
        if isinstance(a, (T, int, Fraction)) and isinstance(b, (T, int, Fraction)) and sort_of(a) == sort_of(b):
            return self.same(s, a, b)
        return False

    def load(self, s, p, size, t, check=True):
        if check:
            self.bounds(s, p, size, "read")
        if isinstance(t, list):
            if t[0] == "s":
                return [self.load(s, Ptr(p.r, add(p.o, off)), tsize(et), et, False) for off, et in t[1:]]
            return [self.load(s, Ptr(p.r, add(p.o, i * t[2])), tsize(t[3]), t[3], False) for i in range(t[1])]
        r = self.region(s, p)
        v = self.raw_load(s, r, p.o, size)
        if s.rec is not None:
            s.rec.on_read(s, p.r, p.o, size, v)
        return self.coerce(s, v, t)

    def coerce(self, s, v, t):
        """value read from memory -> register of type t"""
        if t == "d":
            if v.__class__ is int:
                if v == 0:
                    return Fraction(0)
                d = struct.unpack("<d", struct.pack("<q", v))[0]
                return ffloat(d)
            if isT(v) and v.sort == "I":
                raise Unsupported("int bits as double")
            if v is UNDEF:
                return fresh("uninit", "R")
            return v
        if t == "p":
            if v.__class__ is int:
                return Ptr(None, v)
            if isT(v):
                return self.int2ptr(s, v)
            return v
        if t == "f":
            if v.__class__ is int:
                return ffloat(struct.unpack("<f", struct.pack("<i", v))[0])
            return v
        if t == "i1":
            if v.__class__ is int:
                return bool(v & 1)
            return v
        if v is UNDEF and t[0] == "i":
            return UNDEF
        return v

    def raw_load(self, s, r, o, size):
        if not isT(o):
            c = r.cells.get(o)
            if c is not None and c[0] == size:
                return c[1]
            if c is None:
                hit = False
                for k in range(o - 7, o + size):
                    c = r.cells.get(k)
                    if c is not None and k + c[0] > o:
                        hit = True
                        break
                if not hit:
                    return self.below_load(s, r, r.below, o, size)
            return self.bytes_load(s, r, o, size)
        node = (("cells", r.cells), r.below) if r.cells else r.below
        return self.below_load(s, r, node, o, size)

    def bytes_load(self, s, r, o, size):
        for k in range(o, o - 8, -1):
            c = r.cells.get(k)
            if c is not None:
                if isT(c[1]) and k + c[0] >= o + size:
                    v = ite_leaves(c[1], lambda x: wrap((x >> (8 * (o - k))) & ((1 << (8 * size)) - 1), 8 * size))
                    if v is not None:
                        return v
                break
        out = 0
        for i in range(size):
            b = None
            for k in range(o + i, o + i - 8, -1):
                c = r.cells.get(k)
                if c is not None and k + c[0] > o + i:
                    v = c[1]
                    if v.__class__ is bool:
                        v = int(v)
                    if v is UNDEF:
                        return UNDEF
                    if v.__class__ is not int:
                        raise Unsupported("partial read")
                    b = (v >> (8 * (o + i - k))) & 255
                    break
            if b is None:
                v = self.below_load(s, r, r.below, o + i, 1)
                if v.__class__ is not int:
                    if v is UNDEF:
                        return UNDEF
                    raise Unsupported("partial read below")
                b = v & 255
            out |= b << (8 * i)
        return wrap(out, 8 * size)

    def below_load(self, s, r, node, o, size):
        """read through the layers; builds an ite chain over undecided aliases"""
        alts = []  # (cond, value)
        cur = True

        def finish(v):
            return self.combine(s, alts, v)

        while True:
            if node is None:
                if alts:
                    return finish(UNDEF)
                return UNDEF
            L, node = node
            k = L[0]
            if k == "cells":
                cells = L[1]
                if not isT(o):
                    c = cells.get(o)
                    if c is not None and c[0] == size:
                        return finish(c[1])
                    for kk in range(o - 7, o + size):
                        c = cells.get(kk)
                        if c is not None and kk + c[0] > o:
                            if alts:
                                raise Unsupported("partial read of flushed cell")
                            if size == 1:
                                if c[1] is UNDEF:
                                    return UNDEF
                                if c[1].__class__ is not int:
                                    raise Unsupported("partial read of flushed cell")
                                return wrap((c[1] >> (8 * (o - kk))) & 255, 8)
                            out = 0
                            for i in range(size):
                                v = self.below_load(s, r, (L, node), o + i, 1)
                                if v is UNDEF:
                                    return UNDEF
                                if v.__class__ is not int:
                                    raise Unsupported("partial read of flushed cell")
                                out |= (v & 255) << (8 * i)
                            return wrap(out, 8 * size)
                    continue
                for off in sorted(cells):
                    sz, v = cells[off]
                    if sz != size:
                        continue
                    e = eq(o, off)
                    d = self.quiet(s, e) if isT(e) else e
                    if d is True:
                        return finish(v)
                    if d is None:
                        alts.append((e, v))
                continue
            if k == "pt":
                _, po, sz, v = L
                if sz != size:
                    # different access size: must not overlap
                    d = self.quiet(s, bor(le(add(po, sz), o), le(add(o, size), po)))
                    if d is not True:
                        raise Unsupported("mixed-size aliasing")
                    continue
                e = eq(o, po)
                d = self.quiet(s, e) if isT(e) else e
                if d is True:
                    return finish(v)
                if d is None:
                    alts.append((e, v))
                continue
            if k == "fill":
                lo, hi = L[1], L[2]
                c = band(le(lo, o), le(add(o, size), hi))
                d = self.quiet(s, c) if isT(c) else c
                if d is True:
                    return finish(0)
                if d is None:
                    alts.append((c, 0))
                continue
            if k == "rng":
                res = self.rng_match(s, L, o, size)
                if res is None:
                    continue
                c, v = res
                d = self.quiet(s, c) if isT(c) else c
                if d is True:
                    return finish(v)
                if d is None:
                    # the cases met so far may already be all there are
                    if alts and L[6] is not True and self.quiet(s, bor(c, *[a for a, _ in alts])) is True:
                        return finish(v)
                    alts.append((c, v))
                continue
            if k == "copy":
                _, lo, ln, src, slo = L
                c = band(le(lo, o), le(add(o, size), add(lo, ln)))
                d = self.quiet(s, c) if isT(c) else c
                if d is False:
                    continue
                so = add(sub(o, lo), slo)
                v = self.raw_load(s, src, so, size)
                if d is True:
                    return finish(v)
                alts.append((c, v))
                continue
            if k == "ext":
                nm = "%s@%s" % (r.name, o)
                v = self.ext_global(s, r.name, o, size)
                return finish(v)
            if k == "havoc":
                v = L[1](s, o, size)
                return finish(v)
            raise Unsupported("layer " + k)

    def ext_global(self, s, name, o, size):
        if name == "__libc_single_threaded":
            return 1
        # string streams: table of vtables, whose offset to the virtual base is all that is read
        if name.startswith("_ZTTNSt7__cxx1118basic_stringstreamI"):
            return Ptr("$ssvt112" if o == 72 else "$ssvt128", 64)
        if name.startswith("_ZTTNSt7__cxx1119basic_ostringstreamI"):
            return Ptr("$ssvt112", 64)
        if name.startswith("$ssvt"):
            if o != 40:
                raise Unsupported("string stream vtable")
            return int(name[5:])
        if name.startswith("_ZTV") or name.startswith("_ZTI") or name.startswith("_ZTS"):
            return FnPtr("ext:%s@%s" % (name, o))
        if name.startswith("_ZSt4c") or name.startswith("_ZSt3c"):
            # standard streams: a vtable with the basic_ios part at 8, and its ctype facet
            if o == 0:
                return Ptr("$iosvt", 64)
            if o == 248:
                return Ptr("$ctype", 0)
            return 0
        if name == "$iosvt":
            return 8
        if name == "$ctype":
            return 1
        raise Unsupported("external global " + name)

    def rng_match(self, s, L, o, size):
        _, vs, ns, off, sz, val, cond = L
        if len(vs) == 1:
            k = vs[0]
            a0 = subst(off, {k: 0})
            st = sub(subst(off, {k: 1}), a0)
            if isT(st):
                raise Unsupported("symbolic stride range")
            d = sub(o, a0)
            if sz != size:
                raise Unsupported("mixed-size range access")
            q = divide_poly(d, st)
            if q is None:
                # offset not congruent: constant remainder?
                return None
            m = {k: q}
            c = band(le(0, q), lt(q, ns[0]))
            if cond is not True:
                c = band(c, subst(cond, m))
            return c, (substv(val, m))
        raise Unsupported("nested range")

    def combine(self, s, alts, last):
        """alts in priority order"""
        if not alts:
            return last
        vals = [v for c, v in alts] + [last]
        if all(isinstance(v, (int, Fraction, T)) and v.__class__ is not bool for v in vals if v is not UNDEF):
            anyR = any(isinstance(v, Fraction) or (isT(v) and v.sort == "R") for v in vals)
            if last is UNDEF:
                # reading outside everything written: uninitialised
                if len(alts) == 1:
                    r = alts[0][1]
                    return r if not anyR or r.__class__ is not int else Fraction(r)
                r = fresh("uninit", "R" if anyR else "I")
            else:
                r = last
            if anyR and r.__class__ is int:
                r = Fraction(r) if r == 0 else r
            for c, v in reversed(alts):
                if v is UNDEF:
                    continue
                if anyR and v.__class__ is int:
                    v = Fraction(v)
                r = ite(c, v, r)
            return r
        # bools / pointers: fork
        for c, v in alts:
            if self.decide(s, c):
                return v
        return last

    # ------------------------------------------------------------ obligations
    def oblige(self, s, label, kind, goal):
        if not isT(goal) and goal is True:
            self.trivial = getattr(self, "trivial", {})
            self.trivial[label] = self.trivial.get(label, 0) + 1
            return
        w = self.where(s)
        key = (label, goal if not isT(goal) else goal.id, tuple(c.id for c in s.pc))
        if key in self.obkeys:
            return
        self.obkeys.add(key)
        o = Ob(label, kind, tuple(s.pc), goal, w)
        o.facts = tuple(s.facts)
        self.obs.append(o)

    # ------------------------------------------------------------ constants
    def const(self, c):
        k = c[0]
        if k == "i":
            return bool(c[2]) if c[1] == 1 else c[2]
        if k == "f":
            return fconst(c[1])
        if k == "n":
            return NULL
        if k == "g":
            n = self.m.resolve(c[1])
            if n in self.m.raw or n in self.m.decl:
                return FnPtr(n)
            return Ptr(n, c[2])
        if k == "u":
            return self.zero_like(c[1], True)
        if k == "z":
            return self.zero_like(c[1], False)
        if k == "S":
            return [self.const(x) for x in c[1:]]
        if k == "ip":
            return Ptr(None, c[1])
        if k == "i2p":
            v = self.const(c[1])
            if v.__class__ is int:
                return Ptr(None, v + c[2])
        if k == "ce":
            if c[1] == "ptrtoint":
                v = self.const(c[3])
                if v.__class__ is FnPtr:
                    return v
                return self.ptr2int(None, v)
            raise Unsupported("constant expression " + c[1])
        raise Unsupported("constant %r" % (c,))

    def zero_like(self, t, undef):
        if isinstance(t, list):
            if t[0] == "s":
                return [self.zero_like(e, undef) for o, e in t[1:]]
            return [self.zero_like(t[3], undef) for _ in range(t[1])]
        if undef:
            return UNDEF
        if t in ("d", "f", "ld"):
            return Fraction(0)
        if t == "p":
            return NULL
        if t == "i1":
            return False
        return 0

    def val(self, fr, x):
        if x.__class__ is int:
            return fr.regs[x]
        return self.const(x)

    # ------------------------------------------------------------ exploring
    def call_fn(self, s, name, args, dest=None, inv=None):
        f = self.m.func(name)
        fr = Frame()
        fr.f, fr.b, fr.ip, fr.prev = f, 0, 0, -1
        fr.regs = [None] * f.nv
        fr.dest, fr.inv, fr.allocas, fr.uid = dest, inv, [], uid()
        fr.caller_b = None
        for i, (t, bv) in enumerate(f.args):
            v = args[i]
            if bv:
                p = self.alloc(s, bv, "byval", "stack")
                self.copy_mem(s, p, self.ptr_of(s, v), bv)
                fr.allocas.append(p.r)
                v = p
            fr.regs[i] = v
        s.frames.append(fr)
        self.reached.add(name)
        if len(s.frames) > 200:
            raise Unsupported("recursion depth")

    def run_contract(self, name):
        """run all paths of vp_contract_<name>"""
        s = self.new_state()
        self.init_globals(s)
        self.call_fn(s, "vp_contract_" + name, [])
        self.explore([s])

    def init_globals(self, s):
        for c in self.m.ctors:
            c = self.m.resolve(c)
            if "iostream" in c:
                continue
            t = self.fork(s)
            try:
                self.call_fn(t, c, [])
                outs = self.explore([t], count=False)
                if len(outs) == 1 and outs[0][0] == "ret":
                    o = outs[0][1]
                    s.mem = o.mem
                    s.tok = object()
            except Unsupported:
                pass

    def explore(self, work, count=True):
        """run states to their end; returns [(kind,state)]"""
        outs = []
        while work:
            s = work.pop()
            try:
                r = self.run(s)
            except ForkOn as e:
                r = self.do_fork(s, e.cond)
                if r is not None:
                    work.extend(r)
                continue
            except PathEnd as e:
                if e.why not in ("infeasible", "dup"):
                    outs.append((e.why, s))
                continue
            except Unsupported as e:
                e.args = ("%s [in %s]" % (e.args[0], short(self.where(s))),) if "[in" not in str(e.args[0]) else e.args
                raise
            if r[0] == "states":
                work.extend(r[1])
            else:
                outs.append(r)
                if count and r[0] in ("ret",) and not s.markers:
                    self.paths += 1
                    if self.paths > self.MAXPATHS:
                        raise Unsupported("too many paths")
        return outs

    def do_fork(self, s, c):
        import loops
        s.forks += 1
        r = loops.on_undecided(self, s, c)
        if r is not None:
            return r
        if s.forks > 3000:
            raise Unsupported("fork depth")
        t = self.fork(s)
        res = []
        try:
            self.assume(t, bnot(c))
            res.append(t)
        except PathEnd:
            pass
        try:
            self.assume(s, c)
            res.append(s)
        except PathEnd:
            pass
        return res

    def run(self, s):
        import loops
        H = self.H
        while True:
            fr = s.frames[-1]
            blk = fr.f.blocks[fr.b]
            ins = blk[fr.ip]
            op = ins[0]
            self.steps += 1
            h = H.get(op)
            if h is None:
                raise Unsupported("instruction " + op)
            r = h(self, s, fr, ins)
            if r is None:
                fr.ip += 1
            elif r is not True:
                return r

    # each handler returns None (advance), True (control moved), or an outcome
    def goto(self, s, fr, b):
        """take the edge fr.b -> b"""
        import loops
        f = fr.f
        n = f.phis[b]
        if n:
            vals = []
            src = fr.b
            for ins in f.blocks[b][:n]:
                for pb, pv in ins[3]:
                    if pb == src:
                        vals.append((ins[1], self.val(fr, pv)))
                        break
            # loop bookkeeping before assignment
        else:
            vals = []
        r = loops.on_edge(self, s, fr, b, vals)
        if r is not None:
            return r
        for d, v in vals:
            fr.regs[d] = v
        fr.prev = fr.b
        fr.b = b
        fr.ip = n
        return True

    def i_br(self, s, fr, ins):
        if len(ins) == 3:
            return self.goto(s, fr, ins[2])
        c = self.val(fr, ins[2])
        if c is UNDEF:
            raise Unsupported("branch on undef")
        if isT(c):
            if s.markers:
                m = s.markers[-1]
                if m.depth == len(s.frames) and (ins[3] in m.bs) != (ins[4] in m.bs):
                    key = "exits:%d" % fr.uid
                    e = (c, ins[3] not in m.bs)
                    if e not in s.flags.get(key, ()):
                        s.flags[key] = s.flags.get(key, ()) + (e,)
            c = self.decide(s, c)
        return self.goto(s, fr, ins[3] if c else ins[4])

    def i_switch(self, s, fr, ins):
        v = self.val(fr, ins[2])
        for c, b in ins[4]:
            k = self.const(c)
            e = eq(v, k)
            if isT(e):
                e = self.decide(s, e)
            if e:
                return self.goto(s, fr, b)
        return self.goto(s, fr, ins[3])

    def i_ret(self, s, fr, ins):
        v = self.val(fr, ins[3][0]) if ins[3] else None
        self.pop_frame(s)
        if fr.dest == "top" or not s.frames:
            return ("ret", s)
        up = s.frames[-1]
        if fr.dest is not None:
            up.regs[fr.dest] = v
        if fr.inv:
            return self.goto(s, up, fr.inv[0])
        up.ip += 1
        return True

    def pop_frame(self, s):
        fr = s.frames.pop()
        for rid in fr.allocas:
            if rid in s.mem:
                r = self.wregion(s, rid)
                r.dead = True
                r.cells = {}
                r.below = None
                if s.rec is None:
                    del s.mem[rid]
                    self.dead_ids.add(rid)
        while s.loops and s.loops[-1].depth > len(s.frames):
            s.loops.pop()

    dead_ids = set()

    def unwind(self, s):
        """propagate s.exc to the innermost invoke; caller already popped nothing"""
        while s.frames:
            fr = s.frames[-1]
            ins = fr.f.blocks[fr.b][fr.ip]
            if ins[0] == "invoke":
                ub = ins[6]
                return self.goto(s, fr, ub)
            if s.markers and s.markers[-1].depth == len(s.frames):
                return ("throw", s)
            self.pop_frame(s)
        return ("throw", s)

    def i_resume(self, s, fr, ins):
        # continue unwinding in the caller
        if s.markers and s.markers[-1].depth == len(s.frames):
            return ("throw", s)
        self.pop_frame(s)
        return self.unwind(s)

    def i_landingpad(self, s, fr, ins):
        sel = 0
        for isc, cl in ins[4] if False else ins[3]:
            if isc:
                c = self.const(cl)
                if c.__class__ is Ptr and c.r is None:
                    sel = 1
                    break
                sel = self.typeid(c)
                if s.exc and s.exc[1] is not None and self.exc_matches(s.exc[1], c):
                    break
                sel = 0
        fr.regs[ins[1]] = [s.exc[0] if s.exc else NULL, sel]

    def exc_matches(self, thrown, clause):
        return repr(thrown) == repr(clause) or "_ZTISt9exception" in repr(clause)

    def typeid(self, c):
        self.tids = getattr(self, "tids", {})
        return self.tids.setdefault(repr(c), len(self.tids) + 2)

    def i_unreachable(self, s, fr, ins):
        raise PathEnd("unreachable")

    def i_phi(self, s, fr, ins):
        raise Unsupported("phi")

    def i_alloca(self, s, fr, ins):
        n = self.val(fr, ins[3])
        p = self.alloc(s, mul(ins[2], n), "%s.alloca%d" % (short(fr.f.name), ins[1]), "stack")
        fr.allocas.append(p.r)
        fr.regs[ins[1]] = p

    def i_load(self, s, fr, ins):
        p = self.ptr_of(s, self.val(fr, ins[3]))
        fr.regs[ins[1]] = self.load(s, p, ins[4], ins[2])

    def i_store(self, s, fr, ins):
        p = self.ptr_of(s, self.val(fr, ins[4]))
        v = self.val(fr, ins[3])
        if v.__class__ is PtrIte:
            v = self.ptr_of(s, v)
        self.store(s, p, ins[5], v, ins[2])

    def i_gep(self, s, fr, ins):
        p = self.val(fr, ins[2])
        if p.__class__ is not Ptr:
            p = self.ptr_of(s, p)
        o = p.o
        if ins[3]:
            o = add(o, ins[3])
        for x, sc, w in ins[4]:
            v = self.val(fr, x)
            if v is UNDEF:
                raise Unsupported("undef index")
            o = add(o, mul(sc, v))
        fr.regs[ins[1]] = Ptr(p.r, o)

    def uns(self, s, x, w):
        if x.__class__ is int:
            return x if x >= 0 else x + (1 << w)
        if not isT(x):
            raise Unsupported("unsigned of %r" % (x,))
        q = self.quiet(s, le(0, x))
        if q is True:
            return x
        if q is False:
            return add(x, 1 << w)
        return ite(le(0, x), x, add(x, 1 << w))

    def num(self, s, x, t):
        """register value as an Int term for arithmetic"""
        if x.__class__ is Ptr:
            return self.ptr2int(s, x)
        if x.__class__ is Fraction:
            return struct.unpack("<q", struct.pack("<d", float(x)))[0]
        if x.__class__ is bool:
            return x
        if x is UNDEF:
            return fresh("undef", "I")
        if isT(x) and x.sort == "R":
            raise Unsupported("bits of a symbolic double")
        if isinstance(x, str):
            d = {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan")}[x]
            return struct.unpack("<q", struct.pack("<d", d))[0]
        return x

    def ibin(self, s, op, t, a, b, nsw, nuw):
        w = width(t)
        if w == 1:
            a = tobool(a)
            b = tobool(b)
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                return bnot(eq(a, b)) if isT(a) or isT(b) else a != b
            raise Unsupported("i1 " + op)
        a = self.num(s, a, t)
        b = self.num(s, b, t)
        conc = a.__class__ is int and b.__class__ is int
        if op == "add":
            r = add(a, b)
            return wrap(r, w) if r.__class__ is int else self.norm(s, r, w)
        if op == "sub":
            r = sub(a, b)
            return wrap(r, w) if r.__class__ is int else self.norm(s, r, w)
        if op == "mul":
            r = mul(a, b)
            return wrap(r, w) if r.__class__ is int else self.norm(s, r, w)
        if op == "shl":
            if b.__class__ is int:
                r = mul(a, 1 << b)
                return wrap(r, w) if r.__class__ is int else self.norm(s, r, w)
        if op in ("lshr", "udiv", "urem", "ashr", "sdiv", "srem"):
            if op in ("lshr", "udiv", "urem"):
                a = self.uns(s, a, w)
                if op != "lshr":
                    b = self.uns(s, b, w)
            if b.__class__ is int:
                if op in ("lshr", "ashr"):
                    return wrap(a >> b, w) if a.__class__ is int else idiv(a, 1 << b)
                if b == 0:
                    self.oblige(s, "arithmetic: division by zero", "arith", False)
                    raise PathEnd("div0")
                if op == "udiv":
                    return wrap(a // b, w) if a.__class__ is int else idiv(a, b)
                if op == "urem":
                    return wrap(a % b, w) if a.__class__ is int else imod(a, b)
                if a.__class__ is int:
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return wrap(q, w) if op == "sdiv" else wrap(a - q * b, w)
                if b > 0:
                    # exact division keeps the polynomial
                    q = divide_poly(a, b)
                    if q is not None:
                        return q if op == "sdiv" else 0
                    if self.quiet(s, le(0, a)) is True:
                        q = idiv(a, b)
                    else:
                        q = ite(le(0, a), idiv(a, b), neg(idiv(neg(a), b)))
                    return q if op == "sdiv" else sub(a, mul(b, q))
            else:
                c = bnot(eq(b, 0))
                if self.quiet(s, c) is not True:
                    self.oblige(s, "arithmetic: division by zero", "arith", c)
                    self.assume(s, c)
                if op in ("udiv", "sdiv"):
                    q = divide_sym(a, b)
                    if q is not None:
                        return q
                if op in ("udiv", "urem"):
                    # a = b*q + r, 0<=r<b
                    q = app("udiv", (a, b), "I")
                    r_ = sub(a, mul(b, q))
                    self.fact(s, band(le(0, q), le(0, r_), lt(r_, b)))
                    if self.quiet(s, lt(a, b)) is True:
                        q = 0
                        r_ = a
                    return q if op == "udiv" else r_
                raise Unsupported("symbolic " + op)
        if op == "and":
            if conc:
                return wrap(a & b, w)
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                if b == 0:
                    return 0
                ub = b & ((1 << w) - 1)
                if (ub & (ub + 1)) == 0:  # low mask
                    return imod(a, ub + 1)
                nb = ((1 << w) - 1) ^ ub
                if (nb & (nb + 1)) == 0:  # clear low bits
                    return sub(a, imod(a, nb + 1))
                # low mask minus low bits (e.g. 0x7ffffffffffffff8)
                low = ub & -ub
                if ((ub + low) & ub) == 0:
                    hi = ub + low
                    return sub(imod(a, hi), imod(a, low))
        if op == "or":
            if conc:
                return wrap(a | b, w)
            if b.__class__ is int and b == 0:
                return a
            if b.__class__ is int and b > 0 and self.quiet(s, eq(imod(a, 1 << b.bit_length()), 0)) is True:
                return add(a, b)
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                r = ite_leaves(a, lambda k: wrap(k | b, w))
                if r is not None:
                    return r
            if b.__class__ is int and b > 0:
                lo = b & -b
                if self.quiet(s, band(le(0, a), lt(a, lo))) is True:
                    return add(a, b)
        if op == "xor":
            if conc:
                return wrap(a ^ b, w)
            if b.__class__ is int and b == -1:
                return sub(-1, a)
            if a.__class__ is int and a == -1:
                return sub(-1, b)
        raise Unsupported("int op %s %s %s" % (op, show(a), show(b)))

    def norm(self, s, r, w):
        """symbolic integer result: overflow of 64-bit arithmetic excluded by
        the reported machine-arithmetic assumption; narrower widths likewise"""
        return r

    def fact(self, s, c):
        """definitional fact: joins the path condition"""
        if isT(c):
            if c.op == "and":
                for x in c.args:
                    self.fact(s, x)
                return
            if s.known.get(c) is True:
                return
            s.pc.append(c)
            s.known[c] = True
            n = bnot(c)
            if isT(n):
                s.known[n] = False

    def i_ibin(self, s, fr, ins):
        t = ins[2]
        a = self.val(fr, ins[3][0])
        b = self.val(fr, ins[3][1])
        if isinstance(t, list):
            fr.regs[ins[1]] = [self.ibin(s, ins[0], t[3], x, y, 0, 0) for x, y in zip(a, b)]
        else:
            fr.regs[ins[1]] = self.ibin(s, ins[0], t, a, b, 0, 0)

    def fbin(self, s, op, a, b):
        if a is UNDEF or b is UNDEF:
            return fresh("undef", "R")
        if a.__class__ is str or b.__class__ is str:
            return self.fspecial(s, op, a, b)
        if op == "fadd":
            return add(a, b)
        if op == "fsub":
            return sub(a, b)
        if op == "fmul":
            return mul(a, b)
        if op == "fdiv":
            if not isT(b):
                if b == 0:
                    if not isT(a):
                        return NAN if a == 0 else (POS if a > 0 else NEGI)
                    c = self.decide(s, eq(a, Fraction(0)))
                    if c:
                        return NAN
                    return POS if self.decide(s, lt(Fraction(0), a)) else NEGI
                return mul(a, 1 / Fraction(b))
            z = self.quiet(s, eq(b, Fraction(0)))
            if z is True:
                return self.fbin(s, op, a, Fraction(0))
            if z is None:
                # division by exactly zero is excluded (reported assumption)
                self.assumed.add("a floating-point divisor is never exactly zero")
                self.fact(s, bnot(eq(b, Fraction(0))))
            return div(a, b)
        if op == "frem":
            return self.fmod(s, a, b)
        raise Unsupported(op)

    def fmod(self, s, a, b):
        q = div(a, b)
        return sub(a, mul(b, toreal(trunc(q))))

    def fspecial(self, s, op, a, b):
        if a == NAN or b == NAN:
            return NAN
        if not isT(a) and not isT(b):
            x, y = tofloat(a), tofloat(b)
            try:
                r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            except ZeroDivisionError:
                r = float("nan")
            return ffloat(r)
        if op in ("fadd",):
            return a if a.__class__ is str else b
        if op == "fsub":
            return a if a.__class__ is str else (NEGI if b == POS else POS)
        if op == "fdiv" and b.__class__ is str:
            return Fraction(0)
        sp, sy = (a, b) if a.__class__ is str else (b, a)
        if self.decide(s, lt(Fraction(0), sy)):
            return sp
        if self.decide(s, lt(sy, Fraction(0))):
            return POS if sp == NEGI else NEGI
        return NAN

    def i_fbin(self, s, fr, ins):
        t = ins[2]
        a = self.val(fr, ins[3][0])
        b = self.val(fr, ins[3][1])
        if isinstance(t, list):
            fr.regs[ins[1]] = [self.fbin(s, ins[0], x, y) for x, y in zip(a, b)]
        else:
            fr.regs[ins[1]] = self.fbin(s, ins[0], a, b)

    def fneg(self, a):
        if a.__class__ is str:
            return {NAN: NAN, POS: NEGI, NEGI: POS}[a]
        if a is UNDEF:
            return UNDEF
        return neg(a)

    def i_fneg(self, s, fr, ins):
        a = self.val(fr, ins[3][0])
        fr.regs[ins[1]] = [self.fneg(x) for x in a] if a.__class__ is list else self.fneg(a)

    def icmp(self, s, pr, t, a, b):
        if t == "p" or a.__class__ in (Ptr, FnPtr, PtrIte) or b.__class__ in (Ptr, FnPtr, PtrIte):
            return self.pcmp(s, pr, a, b)
        w = width(t)
        if w == 1:
            a, b = tobool(a), tobool(b)
            if pr == "eq":
                return eq(a, b)
            if pr == "ne":
                return bnot(eq(a, b)) if isT(a) or isT(b) else a != b
            if pr == "ugt":
                return band(a, bnot(b))
            if pr == "ult":
                return band(bnot(a), b)
            raise Unsupported("i1 cmp")
        a, b = self.num(s, a, t), self.num(s, b, t)
        if pr == "eq":
            return eq(a, b)
        if pr == "ne":
            return bnot(eq(a, b))
        if pr[0] == "u":
            a, b = self.uns(s, a, w), self.uns(s, b, w)
        k = pr[1:]
        if k == "lt":
            return lt(a, b)
        if k == "le":
            return le(a, b)
        if k == "gt":
            return lt(b, a)
        return le(b, a)

    def pcmp(self, s, pr, a, b):
        if a.__class__ is FnPtr or b.__class__ is FnPtr:
            same = a.__class__ is b.__class__ and a.name == b.name
            if pr == "eq":
                return same
            if pr == "ne":
                return not same
            raise Unsupported("function pointer order")
        a, b = self.ptr_of(s, a), self.ptr_of(s, b)
        if a.r == b.r:
            if pr == "eq":
                return eq(a.o, b.o)
            if pr == "ne":
                return bnot(eq(a.o, b.o))
            k = pr[1:]
            return {"lt": lt, "le": le, "gt": gt, "ge": ge}[k](a.o, b.o)
        if pr == "eq":
            return False
        if pr == "ne":
            return True
        if a.r is None or b.r is None:
            # null orders below everything
            lo = a.r is None
            return lo if pr[1:] in ("lt", "le") else not lo
        # order of distinct objects: arbitrary but fixed (allocation order)
        self.assumed.add("addresses of distinct objects are ordered by allocation")
        x, y = (str(a.r), str(b.r)) if (a.r.__class__ is str or b.r.__class__ is str) else (a.r, b.r)
        return x < y if pr[1:] in ("lt", "le") else x > y

    def i_icmp(self, s, fr, ins):
        a = self.val(fr, ins[4])
        b = self.val(fr, ins[5])
        t = ins[3]
        if isinstance(t, list):
            fr.regs[ins[1]] = [self.icmp(s, ins[2], t[3], x, y) for x, y in zip(a, b)]
        else:
            fr.regs[ins[1]] = self.icmp(s, ins[2], t, a, b)

    def fcmp(self, s, pr, a, b):
        if a is UNDEF or b is UNDEF:
            return fresh("undef", "B")
        sp = a.__class__ is str or b.__class__ is str
        nan = (a == NAN if a.__class__ is str else False) or (b == NAN if b.__class__ is str else False)
        if pr == "ord":
            return not nan
        if pr == "uno":
            return nan
        if pr == "true":
            return True
        if pr == "false":
            return False
        if nan:
            return pr[0] == "u"
        k = pr[1:]
        if sp:
            x = {POS: 1, NEGI: -1}.get(a, 0) if a.__class__ is str else 0
            y = {POS: 1, NEGI: -1}.get(b, 0) if b.__class__ is str else 0
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k]
        if k == "eq":
            return eq(a, b)
        if k == "ne":
            return bnot(eq(a, b))
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[k](a, b)

    def i_fcmp(self, s, fr, ins):
        a = self.val(fr, ins[4])
        b = self.val(fr, ins[5])
        if a.__class__ is list:
            fr.regs[ins[1]] = [self.fcmp(s, ins[2], x, y) for x, y in zip(a, b)]
        else:
            fr.regs[ins[1]] = self.fcmp(s, ins[2], a, b)

    def select(self, s, c, a, b):
        if c is UNDEF:
            return a
        if not isT(c):
            return a if c else b
        k = s.known.get(c)
        if k is not None:
            return a if k else b
        if a.__class__ is list:
            if self.decide(s, c):
                return a
            return b
        num = (T, int, Fraction, bool)
        if isinstance(a, num) and isinstance(b, num):
            sa, sb = sort_of(a), sort_of(b)
            if sa == sb:
                q = self.quiet(s, c)
                if q is not None:
                    return a if q else b
                return ite(c, a, b)
        if a.__class__ is Ptr and b.__class__ is Ptr and a.r == b.r:
            return Ptr(a.r, ite(c, a.o, b.o))
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return a if self.decide(s, c) else b

    def i_select(self, s, fr, ins):
        c, a, b = [self.val(fr, x) for x in ins[3]]
        if c.__class__ is list:
            fr.regs[ins[1]] = [self.select(s, x, y, z) for x, y, z in zip(c, a, b)]
        else:
            fr.regs[ins[1]] = self.select(s, c, a, b)

    def cast(self, s, op, t, ft, a):
        if a is UNDEF:
            return UNDEF
        if op in ("zext", "sext", "trunc"):
            w, fw = width(t), width(ft)
            if fw == 1:
                a = tobool(a)
                if isT(a):
                    return ite(a, 1 if op == "zext" else -1, 0)
                return (1 if op == "zext" else -1) if a else 0
            a = self.num(s, a, ft)
            if op == "sext":
                return a
            if op == "zext":
                return self.uns(s, a, fw)
            if a.__class__ is int:
                if w == 1:
                    return bool(a & 1)
                return wrap(a, w)
            if w == 1:
                if a.op == "ite" and a.args[1].__class__ is int and a.args[2].__class__ is int:
                    return ite(a.args[0], bool(a.args[1] & 1), bool(a.args[2] & 1))
                return eq(imod(a, 2), 1)
            # narrowing assumed value-preserving when provable, else modulo
            half = 1 << (w - 1)
            if self.quiet(s, band(le(-half, a), lt(a, half))) is True:
                return a
            if self.quiet(s, band(le(0, a), lt(a, 2 * half))) is True:
                return ite(lt(a, half), a, sub(a, 2 * half))
            self.assumed.add("narrowing integer conversions do not overflow")
            return a
        if op in ("sitofp", "uitofp"):
            if ft == "i1":
                a = tobool(a)
                v = Fraction(1 if op == "uitofp" else -1)
                return ite(a, v, Fraction(0))
            a = self.num(s, a, ft)
            if op == "uitofp":
                a = self.uns(s, a, width(ft))
            return toreal(a)
        if op in ("fptosi", "fptoui"):
            if a.__class__ is str:
                return -(1 << (width(t) - 1))
            return trunc(a)
        if op in ("fpext", "fptrunc"):
            return a
        if op == "ptrtoint":
            if a.__class__ is FnPtr:
                return a
            return self.ptr2int(s, a)
        if op == "inttoptr":
            if a.__class__ is FnPtr:
                return a
            return self.int2ptr(s, a) if not isinstance(a, Ptr) else a
        if op == "bitcast":
            if t == "d" and isinstance(a, int):
                return self.coerce(s, a, "d")
            if t[0] == "i" and not isinstance(t, list) and isinstance(a, Fraction):
                return self.num(s, a, t)
            if isT(a) and ft == "d" and t == "i64":
                return a  # carried as the real; only copies are supported
            if isT(a) and a.sort == "R" and t == "d":
                return a
            return a
        raise Unsupported("cast " + op)

    def i_cast(self, s, fr, ins):
        a = self.val(fr, ins[3][0])
        t, ft = ins[2], ins[4]
        if isinstance(t, list) and isinstance(ft, list):
            fr.regs[ins[1]] = [self.cast(s, ins[0], t[3], ft[3], x) for x in a]
        else:
            fr.regs[ins[1]] = self.cast(s, ins[0], t, ft, a)

    def i_freeze(self, s, fr, ins):
        a = self.val(fr, ins[3][0])
        if a is UNDEF:
            t = ins[2]
            a = fresh("undef", "R" if t == "d" else "B" if t == "i1" else "I")
        fr.regs[ins[1]] = a

    def i_extractvalue(self, s, fr, ins):
        a = self.val(fr, ins[2])
        for i in ins[3]:
            a = a[i]
        fr.regs[ins[1]] = a

    def i_insertvalue(self, s, fr, ins):
        a = self.val(fr, ins[2])
        v = self.val(fr, ins[3])

        def put(x, ix):
            x = list(x)
            x[ix[0]] = v if len(ix) == 1 else put(x[ix[0]], ix[1:])
            return x

        fr.regs[ins[1]] = put(a, ins[4])

    def i_extractelement(self, s, fr, ins):
        a, i = self.val(fr, ins[3][0]), self.val(fr, ins[3][1])
        fr.regs[ins[1]] = a[i]

    def i_insertelement(self, s, fr, ins):
        a, v, i = [self.val(fr, x) for x in ins[3]]
        a = list(a)
        a[i] = v
        fr.regs[ins[1]] = a

    def i_shufflevector(self, s, fr, ins):
        a, b = self.val(fr, ins[2]), self.val(fr, ins[3])
        ab = list(a) + list(b)
        fr.regs[ins[1]] = [UNDEF if i < 0 else ab[i] for i in ins[4]]

    def i_fence(self, s, fr, ins):
        pass

    def i_atomicrmw(self, s, fr, ins):
        p = self.ptr_of(s, self.val(fr, ins[3][0]))
        v = self.val(fr, ins[3][1])
        sz = tsize(ins[2])
        old = self.load(s, p, sz, ins[2])
        op = ins[4]
        if op == "xchg":
            n = v
        else:
            n = self.ibin(s, op, ins[2], old, v, 0, 0)
        self.store(s, p, sz, n)
        fr.regs[ins[1]] = old

    def i_cmpxchg(self, s, fr, ins):
        p = self.ptr_of(s, self.val(fr, ins[3][0]))
        cmp_, new = self.val(fr, ins[3][1]), self.val(fr, ins[3][2])
        t = ins[2][1][1]
        sz = tsize(t)
        old = self.load(s, p, sz, t)
        e = self.icmp(s, "eq", t, old, cmp_)
        if isT(e):
            e = self.decide(s, e)
        if e:
            self.store(s, p, sz, new)
        fr.regs[ins[1]] = [old, e]

    def i_call(self, s, fr, ins):
        callee = ins[3]
        c = self.val(fr, callee)
        if c.__class__ is PtrIte:
            c = self.ptr_of(s, c)
        if c.__class__ is not FnPtr:
            if c.__class__ is Ptr and c.r is None:
                self.oblige(s, "memory: call through null pointer", "memory", False)
                raise PathEnd("null call")
            raise Unsupported("call target %r" % (c,))
        name = c.name
        args = [self.val(fr, x) for x in ins[4]]
        inv = (ins[5], ins[6]) if ins[0] == "invoke" else None
        h = self.ext.get(name)
        if h is None and name not in self.m.raw:
            h = self.ext_pattern(name)
            if h is None:
                if name == "" or name.startswith("ext:"):
                    raise Unsupported("call of " + name)
                raise Unsupported("external function " + name)
        if h is not None:
            r = h(s, fr, args, ins)
            if r.__class__ is tuple and r and r[0] == "throw!":
                s.exc = r[1]
                return self.unwind(s)
            if r.__class__ is tuple and r and r[0] == "call!":
                # external calls back into verified code
                self.call_fn(s, r[1], r[2], ins[1], inv)
                return True
            if ins[2] != "v":
                fr.regs[ins[1]] = r
            if inv:
                return self.goto(s, fr, inv[0])
            return None
        self.call_fn(s, name, args, ins[1] if ins[2] != "v" else None, inv)
        return True

    def ext_pattern(self, name):
        import ext
        return ext.pattern(self, name)

    # memory blocks ------------------------------------------------------
    def copy_mem(self, s, d, p, n):
        if not isT(n) and n == 0:
            return
        if d.r is None or p.r is None:
            if isT(n) and self.quiet(s, eq(n, 0)) is True:
                return
        rs = self.bounds(s, p, n, "read (block copy)")
        self.bounds(s, d, n, "write (block copy)")
        if d.r == p.r and self.same(s, d.o, p.o):
            return
        if s.rec is not None:
            s.rec.on_copy(s, d, p, n)
        rd = self.wregion(s, d.r)
        rs = self.region(s, p)
        if not isT(n) and not isT(d.o) and not isT(p.o):
            simple = True
            for k in list(rs.cells):
                if p.o <= k < p.o + n:
                    if k + rs.cells[k][0] > p.o + n:
                        simple = False
                elif k < p.o < k + rs.cells[k][0]:
                    simple = False
            if simple:
                got = {k - p.o: rs.cells[k] for k in rs.cells if p.o <= k < p.o + n}
                covered = sum(v[0] for v in got.values())
                below = rs.below
                fill = False
                if covered < n and below is not None:
                    if below[0][0] == "fill" and not isT(below[0][1]) and not isT(below[0][2]) and below[0][1] <= p.o and below[0][2] >= p.o + n:
                        fill = True
                    else:
                        simple = False
                if simple:
                    for k in range(d.o - 7, d.o + n):
                        c = rd.cells.get(k)
                        if c is not None and k + c[0] > d.o:
                            if k < d.o or k + c[0] > d.o + n:
                                self.split(rd, k)
                    for k in [k for k in rd.cells if d.o <= k < d.o + n]:
                        del rd.cells[k]
                    if rd.below is not None or fill:
                        if fill:
                            self.flush(rd)
                            rd.below = (("fill", d.o, d.o + n), rd.below)
                    for k, v in got.items():
                        rd.cells[d.o + k] = v
                    return
        snap = rs.copy(None)
        self.flush(rd)
        rd.below = (("copy", d.o, n, snap, p.o), rd.below)

    def set_mem(self, s, d, v, n):
        if not isT(n) and n == 0:
            return
        self.bounds(s, d, n, "write (fill)")
        if s.rec is not None:
            s.rec.on_copy(s, d, None, n)
        if v != 0:
            if not isT(n) and n <= 64 and not isT(d.o):
                for i in range(n):
                    self.raw_store(s, d.r, d.o + i, 1, v)
                return
            raise Unsupported("memset non-zero")
        r = self.wregion(s, d.r)
        if not isT(n) and not isT(d.o) and n <= 4096:
            for k in range(d.o - 7, d.o + n):
                c = r.cells.get(k)
                if c is not None and k + c[0] > d.o:
                    if k < d.o or k + c[0] > d.o + n:
                        self.split(r, k)
            for k in [k for k in r.cells if d.o <= k < d.o + n]:
                del r.cells[k]
        self.flush(r)
        r.below = (("fill", d.o, add(d.o, n)), r.below)


def tobool(x):
    if isT(x):
        if x.sort == "B":
            return x
        return bnot(eq(x, 0))
    if x is UNDEF:
        return fresh("undef", "B")
    return bool(x)


def tsize(t):
    if isinstance(t, list):
        if t[0] == "s":
            return max((o + tsize(e) for o, e in t[1:]), default=0)
        return t[1] * t[2]
    if t in ("d", "p"):
        return 8
    if t == "f":
        return 4
    if t == "ld":
        return 16
    return (width(t) + 7) // 8


def ffloat(d):
    if d != d:
        return NAN
    if d in (float("inf"), float("-inf")):
        return POS if d > 0 else NEGI
    p = pi_const(d)
    return decimal(d) if p is None else p


def tofloat(x):
    if isinstance(x, str):
        return {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan")}[x]
    return float(x)


def divide_poly(d, k):
    """d / k exactly over integer polynomials, k nonzero int constant"""
    if not isT(d):
        return d // k if d % k == 0 else None
    q = {}
    for m, c in to_poly(d).items():
        if c % k:
            # a product with an ite of constants? give up
            return None
        q[m] = c // k
    return from_poly(q, "I")


def divide_sym(a, b):
    """exact division of integer polynomials by a single-monomial b"""
    if not isT(a):
        return 0 if a == 0 else None
    pb = to_poly(b)
    if len(pb) != 1:
        return 1 if a is b else None
    (mb, cb), = pb.items()
    q = {}
    for m, c in to_poly(a).items():
        d = dict(m)
        for x, e in mb:
            if d.get(x, 0) < e:
                return None
            d[x] -= e
            if d[x] == 0:
                del d[x]
        if c % cb:
            return None
        q[tuple(sorted(d.items(), key=lambda ae: ae[0].id))] = c // cb
    return from_poly(q, "I")


def substv(v, m):
    if isT(v):
        return subst(v, m)
    if v.__class__ is Ptr:
        return Ptr(v.r, subst(v.o, m) if isT(v.o) else v.o)
    return v


def short(n):
    return n[:90]


H = {}
for _o in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"):
    H[_o] = Exec.i_ibin
for _o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
    H[_o] = Exec.i_fbin
for _o in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast"):
    H[_o] = Exec.i_cast
H.update({
    "br": Exec.i_br, "switch": Exec.i_switch, "ret": Exec.i_ret, "resume": Exec.i_resume, "landingpad": Exec.i_landingpad,
    "unreachable": Exec.i_unreachable, "alloca": Exec.i_alloca, "load": Exec.i_load, "store": Exec.i_store,
    "getelementptr": Exec.i_gep, "fneg": Exec.i_fneg, "icmp": Exec.i_icmp, "fcmp": Exec.i_fcmp, "select": Exec.i_select,
    "freeze": Exec.i_freeze, "extractvalue": Exec.i_extractvalue, "insertvalue": Exec.i_insertvalue,
    "extractelement": Exec.i_extractelement, "insertelement": Exec.i_insertelement, "shufflevector": Exec.i_shufflevector,
    "call": Exec.i_call, "invoke": Exec.i_call, "atomicrmw": Exec.i_atomicrmw, "cmpxchg": Exec.i_cmpxchg,
    "phi": Exec.i_phi,
})
Exec.H = H
