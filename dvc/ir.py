"""Python view of the IR written by irdump (lazy per function)."""
import json
from fractions import Fraction
from term import pi_const


class Func:
    __slots__ = ("name", "ret", "nv", "args", "blocks", "loops", "hdr", "phis")


class Glob:
    __slots__ = ("name", "size", "init", "const", "cells")


class Module:
    def __init__(self, path):
        self.raw = {}
        self.funcs = {}
        self.decl = {}
        self.globs_raw = {}
        self.globs = {}
        self.alias = {}
        self.ctors = []
        with open(path) as f:
            for line in f:
                k, n, j = line.rstrip("\n").split("\t", 2)
                if k == "F":
                    self.raw[n] = j
                elif k == "G":
                    self.globs_raw[n] = j
                elif k == "D":
                    self.decl[n] = json.loads(j)
                elif k == "A":
                    self.alias[n] = json.loads(j)
                elif k == "C":
                    self.ctors = json.loads(j)

    def resolve(self, n):
        while n in self.alias:
            n = self.alias[n]
        return n

    def func(self, n):
        f = self.funcs.get(n)
        if f is None:
            j = self.raw.get(n)
            if j is None:
                return None
            d = json.loads(j)
            f = Func()
            f.name = n
            f.ret, f.nv, f.args = d["ret"], d["nv"], d["args"]
            f.blocks = d["blocks"]
            f.loops = d["loops"]
            for L in f.loops:
                L["bs"] = frozenset(L["b"])
            f.hdr = {L["h"]: L for L in f.loops}
            f.phis = [sum(1 for i in b if i[0] == "phi") for b in f.blocks]
            self.funcs[n] = f
        return f

    def glob(self, n):
        g = self.globs.get(n)
        if g is None:
            j = self.globs_raw.get(n)
            if j is None:
                return None
            d = json.loads(j)
            g = Glob()
            g.name, g.size, g.init, g.const, g.cells = n, d["size"], d["init"], d["const"], d["cells"]
            self.globs[n] = g
        return g


def fconst(s):
    if s in ("nan", "inf", "-inf"):
        return s
    d = float.fromhex(s)
    p = pi_const(d)
    return decimal(d) if p is None else p


def decimal(d):
    """a literal is read as the decimal (or simple ratio) it rounds, so that
    folding by the compiler does not matter"""
    if d == int(d):
        return Fraction(d)
    r = repr(d)
    if len(r.partition("e")[0].replace(".", "").replace("-", "").lstrip("0")) <= 12:
        return Fraction(r)
    r = "%.13g" % d
    if len(r.partition("e")[0].replace(".", "").replace("-", "").lstrip("0")) <= 10 and abs(float(r) - d) <= 5e-16 * abs(d):
        return Fraction(r)
    q = Fraction(d).limit_denominator(5000)
    if q.numerator < 5000 and abs(q - Fraction(d)) <= Fraction(abs(d)) * Fraction(1, 2**52):
        return q
    return Fraction(d)
