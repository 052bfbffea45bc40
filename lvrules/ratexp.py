"""Arithmetic expressions as canonical quotients of polynomials over access paths (helpers inlined, locals followed)."""
from fractions import Fraction
from .flow import *

FLOATS = ("double", "float", "long double")


def isf(t):
    return t.replace("const ", "").strip() in FLOATS


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


ONE = {(): Fraction(1)}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else ONE

    @staticmethod
    def c(x):
        x = Fraction(x)
        return Rat({(): x} if x else {})

    @staticmethod
    def leaf(p):
        return Rat({(p,): Fraction(1)})

    def __add__(s, o):
        if s.d == o.d:
            return Rat(padd(s.n, o.n), s.d)
        return Rat(padd(pmul(s.n, o.d), pmul(o.n, s.d)), pmul(s.d, o.d))

    def __sub__(s, o):
        return s + Rat(padd({}, o.n, -1), o.d)

    def __mul__(s, o):
        return Rat(pmul(s.n, o.n), pmul(s.d, o.d))

    def __truediv__(s, o):
        return Rat(pmul(s.n, o.d), pmul(s.d, o.n))

    def __eq__(s, o):
        return isinstance(o, Rat) and pmul(s.n, o.d) == pmul(o.n, s.d)

    def leaves(s):
        return {l for m in list(s.n) + list(s.d) for l in m}

    def key(s):
        return (tuple(sorted(s.n.items(), key=repr)), tuple(sorted(s.d.items(), key=repr)))

    def subst(s, f):
        def sp(p):
            r = {}
            for m, c in p.items():
                m2 = tuple(sorted((f(x) for x in m), key=repr))
                r[m2] = r.get(m2, 0) + c
            return r
        return Rat(sp(s.n), sp(s.d))

    def subst_rat(s, f):
        """replace leaves by quotients (f(leaf) -> Rat or None)"""
        def sp(p):
            r = Rat.c(0)
            for m, c in p.items():
                t = Rat.c(c)
                for x in m:
                    y = f(x)
                    t = t * (y if y is not None else Rat.leaf(x))
                r = r + t
            return r
        return sp(s.n) / sp(s.d) if sp(s.d).n else s

    def __repr__(s):
        def pp(p):
            return " + ".join("%s%s" % ("" if c == 1 and m else c, "*".join(short(x) for x in m)) for m, c in p.items()) or "0"
        return "(%s)/(%s)" % (pp(s.n), pp(s.d)) if s.d != ONE else pp(s.n)


def short(p):
    if isinstance(p, str):
        return p
    if isinstance(p, tuple):
        if p and p[0] in ("sqrt", "trunc") and len(p) == 2:
            return "%s(%s)" % (p[0], Rat(dict(p[1][0]), dict(p[1][1])))
        if p and p[0] == "intdiv":
            return "intdiv(%s,%s)" % (Rat(dict(p[1][0]), dict(p[1][1])), Rat(dict(p[2][0]), dict(p[2][1])))
        if not p or not isinstance(p[0], str):
            return str(p)
        if p[0] == "M":
            return short(p[1]) + "." + p[2]
        if p[0] in ("L", "P"):
            return str(p[3])
        if p[0] == "this":
            return "this"
        if p[0] == "idx":
            return "%s[%s]" % (short(p[1]), short(p[2]))
        if p[0] == "c":
            return str(p[1])
        if p[0] == "call":
            return "%s(%s)" % (last(p[1]), ",".join(short(x) for x in p[2:]))
        return p[0] + "(" + ",".join(short(x) for x in p[1:] if isinstance(x, (tuple, str))) + ")"
    return str(p)


def rat(inst, nid, d=0, notes=None):
    """canonical quotient of the expression; integer divisions / float-to-int truncations stay opaque leaves"""
    n = inst.fn.nodes[nid]
    k = n["k"]
    if d > 50:
        return Rat.leaf(("?", inst.id, nid))
    if "c" in n and k not in CALLS and not isinstance(n["c"], str):
        return Rat.c(n["c"])
    if k == "FloatingLiteral":
        try:
            return Rat.c(Fraction(str(n.get("fc"))))
        except Exception:
            return Rat.leaf(("fc", str(n.get("fc"))))
    if k in CASTS and n.get("ch"):
        s = inst.fn.nodes[n["ch"][0]]
        if isf(s.get("t", "")) and not isf(n.get("t", "")) and n.get("t", "") != "void":
            return Rat.leaf(("trunc", rat(inst, n["ch"][0], d + 1, notes).key()))
        return rat(inst, n["ch"][0], d + 1, notes)
    if k == "UnaryOperator" and n["op"] in ("-", "+"):
        r = rat(inst, n["ch"][0], d + 1, notes)
        return r if n["op"] == "+" else Rat.c(0) - r
    if k == "BinaryOperator" and n["op"] in ("+", "-", "*", "/"):
        a, b = rat(inst, n["ch"][0], d + 1, notes), rat(inst, n["ch"][1], d + 1, notes)
        op = n["op"]
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if not isf(n.get("t", "")):
            return Rat.leaf(("intdiv", a.key(), b.key()))
        if not b.n:
            return Rat.leaf(("divzero", inst.id, nid))
        return a / b
    if k == "BinaryOperator" and n["op"] == "<<":
        b = val(inst, n["ch"][1])
        if b[0] == "c" and isinstance(b[1], int) and 0 <= b[1] < 63:
            return rat(inst, n["ch"][0], d + 1, notes) * Rat.c(1 << b[1])
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        dd = n["d"]
        owner, info = inst.find_decl(dd)
        if owner is not None:
            if dd in owner.bind and owner.bind[dd]:
                ci, cn, isref = owner.bind[dd]
                if isref or dd not in mutated(owner.fn):
                    return rat(ci, cn, d + 1, notes)
            elif info is not None and info.get("init", -1) >= 0 and (info.get("ref") or (dd not in mutated(owner.fn) and not info.get("static"))):
                t = owner.fn.nodes[info["init"]].get("t", "")
                if isf(t) and not isf(info.get("t", "double").replace("&", "")) and info.get("t") not in (None, "auto"):
                    return Rat.leaf(("trunc", rat(owner, info["init"], d + 1, notes).key()))
                return rat(owner, info["init"], d + 1, notes)
    if k == "ConditionalOperator":
        c = val(inst, n["ch"][0])
        if c[0] == "c" and isinstance(c[1], int):
            return rat(inst, n["ch"][1 if c[1] else 2], d + 1, notes)
    if k in CTORS and n.get("cpmv") and n.get("ch"):
        return rat(inst, n["ch"][0], d + 1, notes)
    if k in CALLS:
        nm = last(n.get("fn", ""))
        obj, args = callee_args(n)
        if nm in ("sqrt", "sqrtf") and len(args) == 1:
            return Rat.leaf(("sqrt", rat(inst, args[0], d + 1, notes).key()))
        if nid in inst.calls:
            ci = inst.calls[nid]
            rv = [rn.n()["ch"][0] for rn in ci.rets if rn.n().get("ch")]
            if len(rv) == 1:
                if isf(ci.fn.nodes[rv[0]].get("t", "")) and ci.fn.rt and not isf(ci.fn.rt):
                    return Rat.leaf(("trunc", rat(ci, rv[0], d + 1, notes).key()))
                return rat(ci, rv[0], d + 1, notes)
    return Rat.leaf(val(inst, nid))


def cases(inst, nid, pre=(), d=0):
    """[(branch conditions, inst, nid)] splitting ?: and returns of inlined helpers; conditions are (inst, nid, polarity)"""
    n = inst.fn.nodes[nid]
    k = n["k"]
    if d > 30:
        return [(pre, inst, nid)]
    if k in CASTS and n.get("ch"):
        s = inst.fn.nodes[n["ch"][0]]
        if not (isf(s.get("t", "")) and not isf(n.get("t", ""))):
            return cases(inst, n["ch"][0], pre, d + 1)
    if k == "ConditionalOperator":
        return cases(inst, n["ch"][1], pre + ((inst, n["ch"][0], True),), d + 1) + cases(inst, n["ch"][2], pre + ((inst, n["ch"][0], False),), d + 1)
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        dd = n["d"]
        owner, info = inst.find_decl(dd)
        if owner is not None and dd in owner.bind and owner.bind[dd] and dd not in mutated(owner.fn):
            return cases(owner.bind[dd][0], owner.bind[dd][1], pre, d + 1)
        if info is not None and info.get("init", -1) >= 0 and dd not in mutated(owner.fn) and not info.get("static"):
            return cases(owner, info["init"], pre, d + 1)
    if k in CALLS and nid in inst.calls:
        ci = inst.calls[nid]
        out = []
        rv = [(rn, rn.n()["ch"][0]) for rn in ci.rets if rn.n().get("ch")]
        if rv:
            for rn, r in rv:
                out += cases(ci, r, pre + (("node", rn.i),), d + 1)
            return out
    return [(pre, inst, nid)]
