"""X01: one LBSP pattern everywhere, and no descriptor is computed closer to the image border than half its patch."""
import re
from .flow import *
from .ratexp import *
from . import metrics as M
from . import sampling as S
from . import video as V


class GFn:
    """a global initialiser seen as a function body"""

    def __init__(self, g):
        self.nodes = g["nodes"]


def table(P, q):
    g = P.globals.get(q)
    if not g or g.get("init", -1) is None or g.get("init", -1) < 0:
        return None
    t = S.consts_in(GFn(g), g["init"])
    return t


def const(P, q):
    t = table(P, q)
    return t if isinstance(t, int) else None


def x01(P, ctx):
    half = S.patch_half(P)
    pat = pattern(P, ctx, half)
    shaders(P, ctx, pat)
    lookup(P, ctx, pat)
    if half is None:
        ctx.notes.append("patch size of LBSP not found")
        return
    inside(P, ctx, half)
    roi(P, ctx, half)


# ------------------------------------------------------------------------------------------------ the pattern
def pattern(P, ctx, half):
    base = "LBSP::s_%sIdxLUT_16bitdbcross%s"
    pts = None
    tx, ty = table(P, base % ("o", "_x")), table(P, base % ("o", "_y"))
    t2 = table(P, base % ("an", ""))
    g = P.globals.get(base % ("o", "_x")) or P.globals.get(base % ("an", ""))
    where = "%s:%s" % (g["file"].replace("/repo/", ""), g["line"]) if g else "LBSP"
    if tx and ty:
        tx, ty = S.flat(tx), S.flat(ty)
        pts = list(zip(tx, ty))
        if len(tx) != len(ty):
            ctx.bad("pattern", where, "the x and y offset tables have %d and %d entries" % (len(tx), len(ty)), key="pat|len")
    if t2:
        p2 = [tuple(r) for r in t2 if isinstance(r, list)]
        if pts is None:
            pts = p2
        elif p2 != pts:
            k = [i for i in range(min(len(p2), len(pts))) if p2[i] != pts[i]]
            ctx.bad("pattern", where, "the two offset tables disagree on bit %s" % (k[0] if k else min(len(p2), len(pts))), key="pat|tables")
        else:
            ctx.ok("pattern", where, "both offset tables list the same %d points" % len(pts))
    if not pts:
        ctx.notes.append("LBSP offset tables not found")
        return None
    bits = 16
    if len(pts) != bits or len(set(pts)) != bits or (0, 0) in pts:
        ctx.bad("pattern", where, "the pattern does not consist of %d distinct neighbours" % bits, key="pat|distinct")
    else:
        ctx.ok("pattern", where, "%d distinct neighbours" % bits)
    if half is not None:
        r = max(max(abs(a), abs(b)) for a, b in pts)
        if r > half:
            ctx.bad("pattern", where, "the pattern reaches %d pixels away but the patch only promises %d" % (r, half), key="pat|radius")
        else:
            ctx.ok("pattern", where, "radius %d within the patch" % r)
    sg = lambda v: (v > 0) - (v < 0)
    for ax, k, sign in (("X", 0, -1), ("Y", 1, 1)):
        gt = table(P, "LBSP::s_anIdxLUT_16bitdbcross_Grad" + ax)
        want = [sign * sg(p[k]) for p in pts]
        if gt:
            gt = S.flat(gt)
            if gt != want and gt != [-v for v in want]:
                i = [j for j in range(min(len(gt), len(want))) if gt[j] != want[j]]
                ctx.bad("gradient", where, "the gradient table of axis %s disagrees with the offsets of bit %s" % (ax, i[0] if i else "?"), key="grad|" + ax)
                continue
            ctx.ok("gradient", where, "table " + ax)
            want = gt
        pos, neg = [masks(P, "LBSP::s_nDesc_16bitdbcross_Grad%s_%s" % (ax, s)) for s in ("Pos", "Neg")]
        wp = sum(1 << i for i, v in enumerate(want) if v > 0)
        wn = sum(1 << i for i, v in enumerate(want) if v < 0)
        for nm, v, w in (("Pos", pos, wp), ("Neg", neg, wn)):
            if v is None:
                continue
            if v != w:
                ctx.bad("gradient", where, "the %s mask of axis %s selects bits %s but the pattern has its points at %s" % (nm, ax, bin(v), bin(w)), key="mask|%s|%s" % (ax, nm))
            else:
                ctx.ok("gradient", where, "mask %s %s" % (ax, nm))
    return pts


def masks(P, q):
    g = P.globals.get(q)
    if not g:
        return None
    n = g["nodes"]

    def ev(i):
        x = n[i]
        if isinstance(x.get("c"), int):
            return x["c"]
        ch = x.get("ch", [])
        if x["k"] == "BinaryOperator":
            a, b = ev(ch[0]), ev(ch[1])
            if a is None or b is None:
                return None
            return {"<<": lambda: a << b, "+": lambda: a + b, "|": lambda: a | b}.get(x["op"], lambda: None)()
        return ev(ch[0]) if len(ch) == 1 else None
    return ev(g["init"])


def shaders(P, ctx, pat):
    """both variants of the GLSL twin put the same neighbour in the same bit"""
    if not pat:
        return
    done = set()
    for fn in P.all():
        if fn.rec != "LBSP" or fn.fn in done:
            continue
        text = "".join(fn.nodes[i].get("v", "") for i in fn.walk() if fn.nodes[i]["k"] == "StringLiteral")
        if "greaterThan" not in text:
            continue
        done.add(fn.fn)
        nv = 0
        for body in re.split(r"uvec3\s+lbsp\s*\(", text)[1:]:
            nv += 1
            terms = re.split(r"greaterThan\s*\(", body)[1:]
            got = {}
            unresolved = False
            for t in terms:
                m = re.search(r"vCoords\s*\+\s*ivec2\(\s*(-?\d+)\s*,\s*(-?\d+)\s*\)", t)
                if m:
                    o = int(m.group(1)), int(m.group(2))
                else:
                    m = re.search(r"\[\s*vLocalCoords\.y\s*([-+]\s*\d+)?\s*\]\s*\[\s*vLocalCoords\.x\s*([-+]\s*\d+)?\s*\]", t)
                    if not m:
                        unresolved = True
                        continue
                    f = lambda s: int(s.replace(" ", "")) if s else 0
                    o = f(m.group(2)), f(m.group(1))
                m = re.search(r"<<\s*(\d+)", t)
                b = int(m.group(1)) if m else 0
                if b in got:
                    ctx.bad("shader", fn.where(), "the lbsp shader function writes bit %d twice" % b, key="glsl|twice|%d|%d" % (nv, b))
                got[b] = o
                if "abs" not in t:
                    ctx.bad("shader", fn.where(), "bit %d of the lbsp shader function is not an absolute difference" % b, key="glsl|abs|%d|%d" % (nv, b))
            if unresolved:
                ctx.notes.append("%s: shader variant %d not fully resolved" % (fn.where(), nv))
                continue
            bad = [b for b in range(len(pat)) if got.get(b) != pat[b]]
            if bad:
                ctx.bad("shader", fn.where(), "bit %d of the lbsp shader function (variant %d) compares the neighbour %s; the CPU code compares %s" % (bad[0], nv, got.get(bad[0]), pat[bad[0]]), key="glsl|%d|%d" % (nv, bad[0]))
            else:
                ctx.ok("shader", fn.where(), "variant %d: %d bits" % (nv, len(pat)))


def lookup(P, ctx, pat):
    """the value stored for bit n is the pixel at (x+dx[n], y+dy[n])"""
    done = set()
    for fn in P.all():
        if fn.rec != "LBSP" or not last(fn.fn).split("<")[0].startswith("lookup_16bits"):
            continue
        if fn.line in done:
            continue
        done.add(fn.line)
        ints = [p for p in fn.params if "long" in p["t"] or "int" in p["t"]]
        ptrs = [p for p in fn.params if "*" in p["t"]]
        if len(ints) != 2 or len(ptrs) != 2 or not pat:
            ctx.notes.append("%s: not resolved" % fn.where())
            continue
        G = Graph(P, fn, inline=lambda inst, n, callee: True, maxdepth=3, drop_throw=True)
        found = False
        cand = []
        bodies = [(fn, Inst(fn, this=None, dyn=fn.rec))]
        count = None
        for i, n in enumerate(fn.nodes):
            if n and n["k"] == "LambdaExpr":
                lam = P.lam.get((fn.tu, n["lam"])) if hasattr(fn, "tu") else None
                if lam is not None:
                    li = Inst(lam, this=None)
                    li.defenv = bodies[0][1]
                    bodies.append((lam, li))
            if n and n["k"] == "CallExpr":
                m = re.match(r"_ZN2lv6unrollILm(\d+)E", n.get("fk") or "")
                if m:
                    count = int(m.group(1))
            if n and n["k"] == "ForStmt":
                lr = M.loop_range(fn, i)
                if lr and lr[1] == 0 and lr[3] in ("<", "!=") and lr[4] == 1:
                    c = fn.nodes[M.strip(fn, lr[2])].get("c")
                    count = c if isinstance(c, int) else count
        for f, inst in bodies:
            for i, n in enumerate(f.nodes):
                if not n or n["k"] != "BinaryOperator" or n.get("op") != "=":
                    continue
                l, r = f.nodes[M.strip(f, n["ch"][0])], f.nodes[M.strip(f, n["ch"][1])]
                if l["k"] != "ArraySubscriptExpr" or r["k"] != "ArraySubscriptExpr":
                    continue
                cand.append((f, inst, i, l, r))
        rs, cs = ints[0]["name"], ints[1]["name"]
        for f, inst, i, l, r in cand:
            li = trimmed(f, l["ch"][1])
            got = {}
            ok = True
            for b in range(16):
                env = {}
                if li["k"] == "DeclRefExpr":
                    env[li["n"]] = b
                v = evalrat(P, f, r["ch"][1], env, (rs, cs))
                if v is None:
                    ok = False
                    break
                got[b] = v
            if not ok or li["k"] != "DeclRefExpr":
                continue
            found = True
            # first integer parameter is the row step
            bad = [b for b in range(16) if got[b] != (pat[b][1], pat[b][0])]
            if bad:
                ctx.bad("lookup", f.where(i), "bit %d is read at row offset %d, column offset %d instead of (%d,%d)" % (bad[0], got[bad[0]][0], got[bad[0]][1], pat[bad[0]][1], pat[bad[0]][0]), key="lookup|%d" % bad[0])
            elif count is not None and count != 16:
                ctx.bad("lookup", f.where(i), "only %d of the 16 bits are looked up" % count, key="lookup|count")
            else:
                ctx.ok("lookup", f.where(i), "16 reads")
        if not found:
            ctx.notes.append("%s: lookup not resolved" % fn.where())
    # the two step arguments, and the base pointer
    done = set()
    for fn in P.all():
        for i, n in enumerate(fn.nodes):
            if not n or n["k"] != "CallExpr" or not n.get("fn", "").startswith("LBSP::lookup_16bits") or (fn.fn, n.get("line")) in done:
                continue
            done.add((fn.fn, n.get("line")))
            _, args = callee_args(n)
            inst = Inst(fn, this=None, dyn=fn.rec)
            owner = lam_owner(P, fn)
            if owner is not None:
                inst.defenv = Inst(owner, this=None, dyn=owner.rec)
            if len(args) != 4:
                continue
            steps = [step_of(val(inst, a)) for a in args[1:3]]
            if None in steps:
                ctx.notes.append("%s: steps not resolved" % fn.where(i))
                continue
            if steps[0][1] != 0 or steps[1][1] != 1 or steps[0][0] != steps[1][0]:
                ctx.bad("lookup", fn.where(i), "the row and column steps handed to the lookup are not those of the image", key="steps|" + fn.fn[:60])
                continue
            base = trat(val(inst, args[0]))
            want = [(l, c) for l, c in coefs(base)]
            yx = {}
            for l, c in want:
                s = step_of(l[0]) if len(l) == 2 and step_of(l[0]) else step_of(l[1]) if len(l) == 2 else None
                if s:
                    o = l[1] if step_of(l[0]) else l[0]
                    yx[s[1]] = o
            names = {k: nm(v) for k, v in yx.items()}
            if 0 in names and 1 in names:
                iy, ix = names[0], names[1]
                own = owner or fn
                ip = [p["name"] for p in own.params if p["t"] in ("const int", "int")]
                if len(ip) == 2 and (ix, iy) == (ip[1], ip[0]):
                    ctx.bad("lookup", fn.where(i), "rows are addressed with the column coordinate", key="base|" + fn.fn[:60])
                elif len(ip) == 2 and (ix, iy) == tuple(ip):
                    ctx.ok("lookup", fn.where(i), "base pointer at (x,y)")


def nm(t):
    while t and t[0] == "cast":
        t = t[1]
    return t[-1] if t and t[0] in ("L", "P") else None


def coefs(r):
    """[(monomial leaves, coefficient)]"""
    out = []
    if r.d == ONE:
        for m, c in r.n.items():
            ls = []
            for x in m:
                ls.append(x)
            out.append((tuple(ls), c))
    return out


def trat(t):
    if t[0] == "cast" and len(t) > 1 and isinstance(t[1], tuple):
        return trat(t[1])
    if t[0] == "c" and isinstance(t[1], (int, float)):
        return Rat.c(t[1])
    if t[0] in ("b+", "b-", "b*") and len(t) == 3:
        a, b = trat(t[1]), trat(t[2])
        return a + b if t[0] == "b+" else a - b if t[0] == "b-" else a * b
    if t[0] == "u-":
        return Rat.c(0) - trat(t[1])
    return Rat.leaf(t)


def step_of(t):
    """(matrix, k) when the value is matrix.step.p[k] / step[k]"""
    while t and t[0] == "cast":
        t = t[1]
    s = str(t)
    if "step" not in s:
        return None
    m = re.search(r"'step'", s)
    k = re.findall(r"\('c', (\d+)\)", s)
    if m and k:
        root = t
        while isinstance(root, tuple) and not (root[0] == "M" and root[-1] == "step"):
            root = root[1] if len(root) > 1 and isinstance(root[1], tuple) else None
        return (root[1] if root else None, int(k[-1]))
    return None


def lam_owner(P, fn):
    if not (fn.rec or "").startswith("lambda#"):
        return None
    for g in P.all():
        if g.tu == fn.tu and g is not fn:
            for n in g.nodes:
                if n and n["k"] == "LambdaExpr" and n.get("lam") == fn.rec:
                    return g
    return None


def trimmed(f, i):
    return f.nodes[M.strip(f, i)]


def evalrat(P, f, i, env, steps):
    """(coefficient of the row step, coefficient of the column step) of an index expression, tables folded at env"""
    r = ev(P, f, i, env, steps)
    if r is None or r.d != ONE:
        return None
    out = [0, 0]
    for m, c in r.n.items():
        if m == () or len(m) != 1:
            return None
        l = m[0]
        if l not in steps:
            return None
        out[steps.index(l)] = int(c)
    return tuple(out)


def ev(P, f, i, env, steps, d=0):
    n = f.nodes[i]
    if d > 30:
        return None
    if isinstance(n.get("c"), int):
        return Rat.c(n["c"])
    k = n["k"]
    ch = [c for c in n.get("ch", []) if c >= 0]
    if k == "DeclRefExpr":
        if n["n"] in env:
            return Rat.c(env[n["n"]])
        if n["n"] in steps:
            return Rat.leaf(n["n"])
        dd = decls_of(f).get(n.get("d"))
        if dd and dd.get("init", -1) >= 0 and n["d"] not in mutated(f):
            return ev(P, f, dd["init"], env, steps, d + 1)
        return None
    if k == "BinaryOperator" and n["op"] in ("+", "-", "*"):
        a, b = [ev(P, f, c, env, steps, d + 1) for c in ch]
        if a is None or b is None:
            return None
        return a + b if n["op"] == "+" else a - b if n["op"] == "-" else a * b
    if k == "UnaryOperator" and n.get("op") == "-":
        a = ev(P, f, ch[0], env, steps, d + 1)
        return None if a is None else Rat.c(0) - a
    if k == "ArraySubscriptExpr":
        idx = []
        x = i
        while f.nodes[M.strip(f, x)]["k"] == "ArraySubscriptExpr":
            s = f.nodes[M.strip(f, x)]
            v = ev(P, f, s["ch"][1], env, steps, d + 1)
            v = None if v is None else S.const_of(v)
            if v is None:
                return None
            idx.insert(0, int(v))
            x = s["ch"][0]
        b = f.nodes[M.strip(f, x)]
        while b["k"] == "MemberExpr" and b.get("ch") and not P.globals.get(b.get("q") or ""):
            b = f.nodes[M.strip(f, b["ch"][0])]
        t = table(P, b.get("q") or b.get("n") or "")
        if t is None:
            return None
        try:
            for j in idx:
                t = t[j]
        except (IndexError, TypeError):
            return None
        return Rat.c(t) if isinstance(t, int) else None
    if len(ch) == 1:
        return ev(P, f, ch[0], env, steps, d + 1)
    return None


# ------------------------------------------------------------------------------------------------ patch inside the image
def is_lbsp(n):
    return n and n["k"] in CALLS and n.get("fn", "").startswith("LBSP::computeDescriptor") and last(n["fn"]).split("<")[0] in ("computeDescriptor", "computeDescriptor_lookup")


class Tokens:
    """must-analysis per integer variable: v >= half, v < S-half, and (v >= half or v >= S)"""

    def __init__(self, G, half):
        self.G, self.half = G, half
        self.MF = None
        self.run()

    def from_atom(self, a, o, wraps=True):
        out = set()
        if a[0] == "or":
            l = [set().union(*[self.from_atom(x, o, wraps) for x in side]) if side else set() for side in a[1:3]]
            out |= l[0] & l[1]
            for p, q in ((l[0], l[1]), (l[1], l[0])):
                for t in p:
                    if t[0] == "lo":
                        for u in q:
                            if u[0] == "past" and u[1] == t[1]:
                                out.add(("lo?", t[1], u[2]))
            return out
        if a[0] not in ("<", "<=", "==") or len(a) != 3:
            return out
        s = 1 if a[0] == "<" else 0
        for l, r in ((a[1], a[2]), (a[2], a[1])) if a[0] == "==" else ((a[1], a[2]),):
            d = trat(r) - trat(l)          # d >= s
            if d.d != ONE:
                continue
            for x in d.leaves():
                if x[0] not in ("L", "P", "M"):
                    continue
                X = Rat.leaf(x)
                e = X - d                  # x >= e+s
                if x not in e.leaves():
                    c = S.const_of(e)
                    if c is not None and c + s >= self.half:
                        out.add(("lo", x, None))
                    if c is None and len(e.leaves()) == 1 and S.const_of(e - Rat.leaf(e.leaves()[0] if isinstance(e.leaves(), list) else next(iter(e.leaves())))) is not None:
                        lf = next(iter(e.leaves()))
                        k = S.const_of(e - Rat.leaf(lf))
                        if k + s >= 0:
                            out.add(("past", x, lf))
                e = d + X                  # x <= e-s
                if x not in e.leaves() and len(list(e.leaves())) == 1:
                    lf = next(iter(e.leaves()))
                    k = S.const_of(e - Rat.leaf(lf))
                    if k is None:
                        continue
                    # x <= lf + k - s  <  lf - half   when k-s <= -half-1
                    if k - s <= -self.half - 1:
                        if wraps and not self.at_least(o, lf, -k):
                            out.add(("wrap", x, lf))
                        else:
                            out.add(("hi", x, lf))
                    else:
                        out.add(("near", x, (lf, int(s - k - 1))))
        return out

    def at_least(self, o, lf, k):
        return any(t[0] == "ge" and t[1] == lf and t[2] >= k for t in o)

    def bounds(self, a):
        """('ge', S, k): S >= k"""
        out = set()
        if a[0] in ("<", "<=") and len(a) == 3:
            d = trat(a[2]) - trat(a[1])
            if d.d == ONE:
                ls = list(d.leaves())
                if len(ls) == 1:
                    c = S.const_of(d - Rat.leaf(ls[0]))
                    if c is not None:
                        out.add(("ge", ls[0], int(-c) + (1 if a[0] == "<" else 0)))
        return out

    def value(self, inst, rhs, o):
        v = val(inst, rhs)
        r = trat(v)
        c = S.const_of(r)
        out = set()
        if c is not None:
            if c >= self.half:
                out.add(("lo", None))
            return out
        n = inst.fn.nodes[M.strip(inst.fn, rhs)]
        if n["k"] in CALLS and last(n.get("fn", "")).split("<")[0] == "max":
            _, a = callee_args(n)
            for x in a:
                out |= {t for t in self.value(inst, x, o) if t[0] == "lo"}
            return out
        for l in r.leaves():
            k = S.const_of(r - Rat.leaf(l))
            if k is None:
                continue
            for t in o:
                if t[1] == l and t[0] == "lo" and k >= 0:
                    out.add(("lo", None))
                if t[1] == l and t[0] == "hi" and k <= 0:
                    out.add(("hi", t[2]))
        return out

    def run(self):
        G = self.G
        order = G.rpo()
        self.IN, self.OUT = IN, OUT = {}, {}
        ch, rounds = True, 0
        while ch and rounds < 30:
            ch = False
            rounds += 1
            for u in order:
                nd = G.nodes[u]
                if u == G.entry.i:
                    s = frozenset()
                else:
                    s = None
                    for p, c in nd.pred:
                        o = OUT.get(p)
                        if o is None:
                            continue
                        if c is not None:
                            ea = list(edge_atoms(c))
                            for a in ea:
                                o = o | self.bounds(a)
                            for a in ea:
                                o = o | self.from_atom(a, o, unsigned_minus(c))
                        s = o if s is None else join(s, o)
                    if s is None:
                        continue
                o = s
                if nd.kind == "stmt":
                    n, inst = nd.n(), nd.inst
                    if n["k"] == "DeclStmt":
                        for d in n["decls"]:
                            x = ("L", inst.id, d["id"], d["name"])
                            o = frozenset(t for t in o if t[1] != x and t[2] != x)
                            if d.get("init", -1) >= 0:
                                o = o | {(w, x, e) for w, e in self.value(inst, d["init"], o)}
                    else:
                        for x in lhs_written(inst, nd.ref):
                            inc = n["k"] == "UnaryOperator" and n.get("op") in ("++", "post++")
                            if n["k"] == "CompoundAssignOperator" and n.get("op") == "+=":
                                c = trat(val(inst, n["ch"][1]))
                                c = S.const_of(c)
                                inc = c is not None and c >= 0
                            if inc:
                                o = frozenset(t for t in o if not (t[1] == x and t[0] in ("hi", "near", "wrap")) and t[2] != x)
                                continue
                            add = set()
                            if n["k"] == "BinaryOperator" and n.get("op") == "=" and x[0] in ("L", "P"):
                                add = {(w, x, e) for w, e in self.value(inst, n["ch"][1], o)}
                            o = frozenset(t for t in o if t[1] != x and t[2] != x and not (isinstance(t[2], tuple) and x in t[2])) | add
                if IN.get(u) != s or OUT.get(u) != o:
                    IN[u], OUT[u] = s, o
                    ch = True


def join(a, b):
    r = a & b
    extra = set()
    for p, q in ((a, b), (b, a)):
        for t in p:
            if t[0] == "lo":
                for u in q:
                    if u[1] == t[1] and u[0] in ("lo?", "past"):
                        extra.add(("lo?", t[1], u[2]))
            if t[0] == "past":
                for u in q:
                    if u == ("lo?", t[1], t[2]):
                        extra.add(u)
            if t[0] == "ge":
                for u in q:
                    if u[0] == "ge" and u[1] == t[1]:
                        extra.add(("ge", t[1], min(t[2], u[2])))
    return frozenset(r | extra)


def unsigned_minus(cond):
    """does the condition contain a subtraction in an unsigned type (its result may wrap)"""
    if cond[0] != "if":
        return False

    def go(inst, i, d=0):
        n = inst.fn.nodes[i]
        if "c" in n or d > 12:
            return False
        if n["k"] == "BinaryOperator" and n.get("op") == "-" and ("unsigned" in n.get("t", "") or "size_t" in n.get("t", "")):
            return True
        if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
            o, info = inst.find_decl(n["d"])
            if o is not None and info is not None and info.get("init", -1) >= 0 and n["d"] not in mutated(o.fn):
                return go(o, info["init"], d + 1)
            return False
        return any(go(inst, c, d + 1) for c in n.get("ch", []) if c >= 0)
    return go(cond[1], cond[2])


def dims(t):
    """(image, 'x'|'y') when the value is an image dimension"""
    while t and t[0] == "cast":
        t = t[1]
    if t and t[0] == "M" and t[-1] in ("cols", "width"):
        return t[1], "x"
    if t and t[0] == "M" and t[-1] in ("rows", "height"):
        return t[1], "y"
    return None


def same_image(a, b):
    f = lambda t: str(t).replace("'size'", "").replace("'M'", "")
    if a == b:
        return True
    # image.size().width
    x = a
    while isinstance(x, tuple) and len(x) > 1:
        if x == b:
            return True
        x = next((y for y in x if isinstance(y, tuple)), None)
    return False


def inside(P, ctx, half):
    roles = S.coord_fields(P)
    pos = {f.fk: f for f in P.all() if S.is_position_fn(f)}
    done = set()
    for fn in P.all():
        if "/modules/" not in fn.file or not fn.cfg:
            continue
        if fn.rec == "LBSP" and last(fn.fn).split("<")[0].startswith("computeDescriptor"):
            delegated(P, ctx, fn, done)
            continue
        calls = [i for i, n in enumerate(fn.nodes) if is_lbsp(n)]
        if not calls or (fn.fn, fn.line) in done or (fn.rec or "").startswith("lambda#") and "LBSP::computeDescriptor" in fn.fn:
            continue
        done.add((fn.fn, fn.line))
        G = Graph(P, fn, dyn=fn.rec, inline=M.noinline, maxdepth=4, drop_throw=True)
        T = MF = None
        for nd in G.stmts():
            if nd.inst.fn is not fn or nd.ref not in calls:
                continue
            n = nd.n()
            _, args = callee_args(n)
            callee = P.get(n["fk"], fn.tu)
            if callee is None:
                ctx.notes.append("%s: descriptor call not resolved" % fn.where(nd.ref))
                continue
            ix = [k for k, p in enumerate(callee.params) if p["t"].replace("const ", "").strip() == "int"]
            im = [k for k, p in enumerate(callee.params) if "cv::Mat" in p["t"]]
            if len(ix) != 2 or not im or len(args) <= ix[1]:
                ctx.notes.append("%s: descriptor call not understood" % fn.where(nd.ref))
                continue
            if T is None:
                T, MF = Tokens(G, half), MustFacts(G)
            img = path(nd.inst, args[im[0]])
            for ax, k in (("x", ix[0]), ("y", ix[1])):
                coordinate(P, ctx, G, T, MF, nd, args[k], ax, img, half, roles, pos)


def delegated(P, ctx, fn, done):
    if (fn.line, "d") in done:
        return
    done.add((fn.line, "d"))
    ip = [p["name"] for p in fn.params if p["t"].replace("const ", "").strip() == "int"]
    for i, n in enumerate(fn.nodes):
        if not is_lbsp(n):
            continue
        callee = P.get(n["fk"], fn.tu)
        _, args = callee_args(n)
        if callee is None or len(ip) != 2:
            continue
        ix = [k for k, p in enumerate(callee.params) if p["t"].replace("const ", "").strip() == "int"]
        if len(ix) != 2:
            continue
        a = [fn.nodes[M.strip(fn, args[k])].get("n") for k in ix]
        if a == ip:
            ctx.ok("patch-inside", fn.where(i), "hands (x,y) on")
        elif a == ip[::-1]:
            ctx.bad("patch-inside", fn.where(i), "hands (y,x) on as (x,y)", key="deleg|%d" % len(fn.params))
        else:
            ctx.notes.append("%s: forwarded coordinates not resolved" % fn.where(i))


def coordinate(P, ctx, G, T, MF, nd, arg, ax, img, half, roles, pos):
    inst, fn = nd.inst, nd.inst.fn
    where = fn.where(nd.ref)
    key = "%s|%s" % (last(fn.fn).split("<")[0], ax)
    st = T.IN.get(nd.i, frozenset())
    a = M.strip(fn, arg)
    n = fn.nodes[a]
    v = path(inst, a)
    # follow constant locals
    owner, oi = inst, a
    cands = [v]
    for _ in range(8):
        n = owner.fn.nodes[oi]
        if n["k"] in CASTS and n.get("ch"):
            oi = n["ch"][0]
            continue
        if n["k"] in ("CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr") and n.get("ch"):
            oi = n["ch"][0]
            continue
        if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
            cands.append(path(owner, oi))
            o2, info = owner.find_decl(n["d"])
            if o2 is not None and info is not None:
                cands.append(("L", o2.id, n["d"], info["name"]))
            if info is not None and info.get("init", -1) >= 0 and n["d"] not in mutated(o2.fn):
                owner, oi = o2, info["init"]
                continue
        break
    cands.append(val(inst, a))
    n = owner.fn.nodes[oi]
    toks = {t for t in st for c in cands if t[1] == c}
    lo = any(t[0] == "lo" for t in toks)
    hi = [t[2] for t in toks if t[0] == "hi"]
    for t in toks:
        if t[0] == "lo?" and t[2] in hi:
            lo = True
    c = S.const_of(trat(val(inst, a)))
    # --- from the pixel table
    src = table_pixel(P, owner, oi, roles)
    if src is not None and not (lo and hi):
        r, idx = src
        if r != ax:
            ctx.bad("patch-inside", where, "the %s coordinate of the table is used as %s" % (r, ax), key="axis|" + key)
            return
        w = in_roi(P, MF, nd, owner, idx)
        if w is True:
            ctx.ok("patch-inside", where, "%s of a pixel of the processed region" % ax)
        elif w is None:
            ctx.notes.append("%s: origin of the pixel index not resolved" % where)
        else:
            ctx.bad("patch-inside", where, "a descriptor is computed at a pixel that is neither known to lie in the processed region nor to be %d pixels away from the border (%s)" % (half, ax), key="roi|" + key)
        return
    # --- written by a position helper (decided by V03)
    if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm") and not (lo or hi):
        d = n["d"]
        for i, m in enumerate(owner.fn.nodes):
            if m and m["k"] == "CallExpr" and m.get("fk") in pos:
                f = pos[m["fk"]]
                _, args = callee_args(m)
                o = [k for k, p in enumerate(f.params) if p["t"].replace(" ", "") == "int&"]
                got = [owner.fn.nodes[M.strip(owner.fn, args[k])].get("d") for k in o]
                if d in got:
                    if got.index(d) != (0 if ax == "x" else 1):
                        ctx.bad("patch-inside", where, "the position helper's %s coordinate is used as %s" % ("yx"[ax == "y"], ax), key="axis|" + key)
                        return
                    si = [k for k, p in enumerate(f.params) if "Size" in p["t"]][0]
                    b = S.const_of(trat(val(owner, args[si - 1]))) if si > 0 and "int" in f.params[si - 1]["t"] and "&" not in f.params[si - 1]["t"] else None
                    if b is not None and b < half:
                        ctx.bad("patch-inside", where, "the sampled position may be %s pixels from the border; the patch needs %d" % (b, half), key="border|" + key)
                    elif b is not None:
                        ctx.ok("patch-inside", where, "%s from a position helper with border %s" % (ax, b))
                    else:
                        ctx.notes.append("%s: border of the position helper not resolved" % where)
                    return
    # --- key points
    kp = keypoints(owner, oi)
    if kp is not None:
        vec, fld = kp
        if fld != ax:
            ctx.bad("patch-inside", where, "the %s coordinate of the key point is used as %s" % (fld, ax), key="axis|" + key)
            return
        filtered(P, ctx, G, nd, fn, vec, half, where, ax)
        return
    if c is not None and c < half:
        ctx.bad("patch-inside", where, "descriptor computed at %s=%s" % (ax, c), key="const|" + key)
        return
    if n["k"] == "DeclRefExpr" and (lo or hi or n["d"] in mutated(owner.fn)):
        wr = [t for t in toks if t[0] == "wrap"]
        near = [t[2] for t in toks if t[0] == "near"]
        bad = False
        if not lo:
            ctx.bad("patch-inside", where, "%s may be less than %d here: the descriptor reads in front of the image" % (ax, half), key="lo|" + key)
            bad = True
        if not hi:
            if wr:
                ctx.bad("patch-inside", where, "the limit of %s is an unsigned difference that wraps around for images smaller than the border" % ax, key="wrap|" + key)
            elif near:
                ctx.bad("patch-inside", where, "%s may come within %d pixels of the far border here: the descriptor reads past the image" % (ax, min(m[1] for m in near)), key="hi|" + key)
            else:
                ctx.bad("patch-inside", where, "%s is not kept %d pixels away from the far border here" % (ax, half), key="hi|" + key)
            bad = True
        for h in hi:
            dm = dims(h)
            if dm:
                if dm[1] != ax:
                    ctx.bad("patch-inside", where, "%s is limited by the number of %s" % (ax, "columns" if dm[1] == "x" else "rows"), key="axis|" + key)
                    bad = True
        if not bad:
            ctx.ok("patch-inside", where, "%s in [%d, size-%d)" % (ax, half, half))
        return
    if lo and hi:
        ctx.ok("patch-inside", where, "%s in [%d, size-%d)" % (ax, half, half))
        return
    ctx.notes.append("%s: %s coordinate not resolved" % (where, ax))


def table_pixel(P, inst, nid, roles):
    """('x'|'y', index node) of a coordinate read from the per-pixel table"""
    n = inst.fn.nodes[nid]
    if n["k"] != "MemberExpr":
        return None
    r = roles.get(n.get("q") or n["n"])
    if not r or len(r) != 1 or not n.get("ch"):
        return None
    b = inst.fn.nodes[M.strip(inst.fn, n["ch"][0])]
    if b["k"] == "DeclRefExpr":
        o, info = inst.find_decl(b["d"])
        if info is not None and info.get("init", -1) >= 0:
            b = o.fn.nodes[M.strip(o.fn, info["init"])]
            inst = o
    if b["k"] in CALLS or b["k"] == "ArraySubscriptExpr":
        ch = b.get("ch", [])
        _, args = callee_args(b) if b["k"] in CALLS else (None, ch[1:])
        if b["k"] in CALLS and b.get("op") == "[]":
            args = ch[-1:]
        if args:
            return next(iter(r)), (inst, args[-1])
    return next(iter(r)), None


def in_roi(P, MF, nd, owner, idx):
    """is the pixel index one of the processed region: taken from the index table, or guarded by the ROI"""
    if idx is None:
        return None
    inst, i = idx
    v = val(inst, i)
    p = path(inst, i)
    if "m_vnPxIdxLUT" in str(v) and v[0] != "b+" and v[0] != "b-":
        return True
    for a in MF.at(nd.i):
        s = str(a)
        if "m_oROI" in s and a[0] in ("true", "!=", "<"):
            if str(v) in s or str(p) in s:
                return True
    r = trat(v)
    if any(l[0] in ("L", "P") for l in r.leaves()):
        return False
    return None


def keypoints(inst, nid):
    """(vector node, 'x'|'y') of voKeyPoints[k].pt.x"""
    n = inst.fn.nodes[nid]
    if n["k"] == "MemberExpr" and n["n"] in ("x", "y") and n.get("ch"):
        b = inst.fn.nodes[M.strip(inst.fn, n["ch"][0])]
        if b["k"] == "MemberExpr" and b["n"] == "pt":
            v = path(inst, M.strip(inst.fn, b["ch"][0]))
            l = [x for x in leaves(v) if x[0] in ("P", "L")]
            ps = {p["id"] for p in inst.fn.params if "KeyPoint" in p["t"]}
            for x in l:
                if x[0] == "P" and x[2] in ps:
                    return x, n["n"]
            return None, n["n"]
    return None


def filtered(P, ctx, G, nd, fn, vec, half, where, ax):
    """every caller filters the key points by the image border before the function is reached, and only removes points afterwards"""
    if vec is None or ax == "y" and False:
        ctx.notes.append("%s: key point list not resolved" % where)
        return
    k = [i for i, p in enumerate(fn.params) if p["id"] == vec[2]]
    if not k:
        ctx.notes.append("%s: key point list not resolved" % where)
        return
    # filtered inside the function itself
    if border_token(G, vec, half).get(nd.i):
        ctx.ok("patch-inside", where, "%s of a key point filtered here" % ax)
        return
    n = 0
    for g in P.all():
        if g.tu != fn.tu or not g.cfg:
            continue
        cs = [i for i, x in enumerate(g.nodes) if x and x["k"] in CALLS and x.get("fk") == fn.fk]
        if not cs:
            continue
        H = Graph(P, g, dyn=g.rec, inline=M.noinline, maxdepth=4, drop_throw=True)
        for u in H.stmts():
            if u.inst.fn is not g or u.ref not in cs:
                continue
            n += 1
            _, args = callee_args(u.n())
            kv = path(u.inst, args[k[0]])
            st = border_token(H, kv, half)
            if st.get(u.i):
                ctx.ok("patch-inside", g.where(u.ref), "key points filtered by the image border (%s of %s)" % (ax, where))
            else:
                ctx.bad("patch-inside", g.where(u.ref), "key points reach %s without having been filtered by a border of %d pixels on every path" % (last(fn.fn), half), key="kp|%s|%s" % (last(g.fn), len(g.params)))
    if not n:
        ctx.notes.append("%s: no caller found" % where)


def border_token(G, vec, half):
    """{node: filtered} must-analysis of cv::KeyPointsFilter::runByImageBorder"""
    order = G.rpo()
    IN, OUT = {}, {}
    ch = True
    while ch:
        ch = False
        for u in order:
            nd = G.nodes[u]
            if u == G.entry.i:
                s = False
            else:
                l = [OUT[p] for p, c in nd.pred if p in OUT]
                if not l:
                    continue
                s = all(l)
            o = s
            if nd.kind == "stmt":
                n = nd.n()
                if n["k"] in CALLS:
                    f = last(n.get("fn", "")).split("<")[0]
                    obj, args = callee_args(n)
                    ps = [path(nd.inst, a) for a in args]
                    if f == "runByImageBorder" and ps and ps[0] == vec:
                        c = S.const_of(trat(val(nd.inst, args[2]))) if len(args) > 2 else None
                        o = c is None or c >= half
                    elif obj and obj[0] == "member" and path(nd.inst, obj[1]) == vec:
                        if f in ("push_back", "emplace_back", "insert", "resize", "assign", "swap", "emplace", "operator="):
                            o = False
                    elif vec in ps and nd.ref not in nd.inst.calls:
                        k = ps.index(vec)
                        pt = n.get("pt") or []
                        if f.startswith("runBy") or f in ("removeDuplicated", "retainBest", "removeDuplicatedSorted", "validateKeyPoints"):
                            if f == "validateKeyPoints":
                                o = True
                        elif k < len(pt) and "&" in pt[k] and "const" not in pt[k]:
                            o = False
                    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n.get("ch") and path(nd.inst, n["ch"][1] if len(n["ch"]) > 2 else n["ch"][0]) == vec:
                        o = False
            if IN.get(u) != s or OUT.get(u) != o:
                IN[u], OUT[u] = s, o
                ch = True
    return IN


# ------------------------------------------------------------------------------------------------ the processed region
def roi(P, ctx, half):
    done = set()
    for fn in P.all():
        if "/modules/" not in fn.file or (fn.fn, fn.line) in done or not fn.cfg:
            continue
        nmf = last(fn.fn).split("<")[0]
        if nmf == "validateROI" and "bgs" not in done:
            pass
        if nmf == "validateROI":
            done.add((fn.fn, fn.line))
            inner(P, ctx, fn, half)
        # region tables are filled from the region only
        touches = any(n and n["k"] == "MemberExpr" and n["n"] in ("m_vnPxIdxLUT", "m_oROI", "m_nROIBorderSize") for n in fn.nodes)
        if not touches or "IIBackgroundSubtractor" not in " ".join([fn.rec or ""] + list(P.bases(fn.rec) if fn.rec and not fn.rec.startswith("lambda#") else [])):
            continue
        done.add((fn.fn, fn.line))
        G = Graph(P, fn, dyn=fn.rec, inline=lambda i, n, c: last(c.fn) != "validateROI" and M.noinline(i, n, c), maxdepth=3, drop_throw=True)
        MF = MustFacts(G)
        val_tok = None
        for nd in G.stmts():
            n, inst = nd.n(), nd.inst
            if inst.fn is not fn:
                continue
            if n["k"] == "BinaryOperator" and n.get("op") == "=":
                l = fn.nodes[M.strip(fn, n["ch"][0])]
                lp = str(path(inst, n["ch"][0]))
                if "m_vnPxIdxLUT" in lp and l["k"] != "MemberExpr":
                    r = val(inst, n["ch"][1])
                    facts = MF.at(nd.i)
                    ok = any("m_oROI" in str(a) and str(r) in str(a) for a in facts)
                    if ok:
                        ctx.ok("region", fn.where(nd.ref), "index table filled under the ROI")
                    elif r[0] in ("L", "P"):
                        ctx.bad("region", fn.where(nd.ref), "a pixel is added to the processed region without testing the ROI at that pixel", key="lut|" + nmf)
                    else:
                        ctx.notes.append("%s: index table not resolved" % fn.where(nd.ref))
                if l["k"] == "MemberExpr" and l["n"] == "m_nROIBorderSize" and "LBSP" in (fn.rec or "") and "Background" in (fn.rec or ""):
                    c = S.const_of(trat(val(inst, n["ch"][1])))
                    if c is None:
                        ctx.notes.append("%s: border size not resolved" % fn.where(nd.ref))
                    elif c < half:
                        ctx.bad("region", fn.where(nd.ref), "the processed region keeps %s pixels from the border but descriptors read %d pixels around each pixel" % (c, half), key="border|" + (fn.rec or ""))
                    else:
                        ctx.ok("region", fn.where(nd.ref), "border %s" % c)
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n.get("ch", [])) >= 2:
                args = n["ch"][-2:]
                l = fn.nodes[M.strip(fn, args[0])]
                if l["k"] == "MemberExpr" and l["n"] == "m_oROI":
                    r = args[1]
                    src = source_mat(fn, r)
                    if src is None:
                        ctx.notes.append("%s: new ROI not resolved" % fn.where(nd.ref))
                        continue
                    sp = path(inst, src)
                    if val_tok is None:
                        val_tok = {}
                    if sp not in val_tok:
                        val_tok[sp] = validated(G, sp)
                    if val_tok[sp].get(nd.i):
                        ctx.ok("region", fn.where(nd.ref), "ROI cut down to the valid area before it is stored")
                    else:
                        ctx.bad("region", fn.where(nd.ref), "the stored ROI has not been cut down by validateROI on every path", key="roi|" + nmf)
    # every class that computes descriptors sets the border in its constructor
    for rec in list(P.recs):
        if not last(rec).startswith("IBackgroundSubtractorLBSP_"):
            continue
        ct = [f for f in P.methods_of(rec) if last(f.fn).split("<")[0] == last(rec).split("<")[0]] if hasattr(P, "methods_of") else []
        ct = [f for f in ct if f.cfg]
        for f in ct:
            w = any(n and n["k"] == "BinaryOperator" and n.get("op") == "=" and f.nodes[M.strip(f, n["ch"][0])].get("n") == "m_nROIBorderSize" for n in f.nodes)
            calls = any(n and n["k"] in CALLS and n.get("fk") for n in f.nodes)
            if not w and not any("m_nROIBorderSize" in str(n) for n in f.nodes if n):
                ctx.bad("region", f.where(), "%s leaves the ROI border at 0 although descriptors read %d pixels around each pixel" % (last(f.fn), half), key="ctor|" + rec)


def source_mat(fn, r):
    n = fn.nodes[M.strip(fn, r)]
    for _ in range(6):
        if n["k"] in ("DeclRefExpr", "MemberExpr") and "Mat" in n.get("t", ""):
            return fn.nodes.index(n)
        if n["k"] in CALLS and last(n.get("fn", "")) in ("clone",):
            o, _ = callee_args(n)
            r = M.strip(fn, o[1]) if o else None
            if r is None:
                return None
            n = fn.nodes[r]
            if n["k"] == "MemberExpr" and n["n"] == "clone":
                n = fn.nodes[M.strip(fn, n["ch"][0])]
            continue
        if len([c for c in n.get("ch", []) if c >= 0]) == 1:
            n = fn.nodes[[c for c in n["ch"] if c >= 0][0]]
            continue
        return None
    return None


def validated(G, sp):
    """{node: True} where the matrix went through validateROI and was not rewritten since"""
    order = G.rpo()
    IN, OUT = {}, {}
    ch = True
    while ch:
        ch = False
        for u in order:
            nd = G.nodes[u]
            if u == G.entry.i:
                s = False
            else:
                l = [OUT[p] for p, c in nd.pred if p in OUT]
                if not l:
                    continue
                s = all(l)
            o = s
            if nd.kind == "stmt":
                n = nd.n()
                if n["k"] in CALLS:
                    _, args = callee_args(n)
                    if last(n.get("fn", "")) == "validateROI":
                        if any(path(nd.inst, a) == sp for a in args):
                            o = True
                    elif sp in lhs_written(nd.inst, nd.ref):
                        o = False
                elif sp in lhs_written(nd.inst, nd.ref):
                    o = False
            if IN.get(u) != s or OUT.get(u) != o:
                IN[u], OUT[u] = s, o
                ch = True
    return IN


def inner(P, ctx, fn, half):
    """the rectangle that survives validateROI is (b, b, cols-2b, rows-2b)"""
    inst = Inst(fn, this=("this",), dyn=fn.rec)
    n_ok = 0
    for i, n in enumerate(fn.nodes):
        if not n or n["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or "Rect" not in n.get("t", ""):
            continue
        ch = [c for c in n.get("ch", []) if c >= 0]
        if len(ch) != 4:
            continue
        v = [trat(unc(val(inst, c))) for c in ch]
        b = v[0]
        if S.const_of(v[1] - b) is None:
            ctx.notes.append("%s: ROI cut by two different borders, not decided" % fn.where(i))
            continue
        if S.const_of(v[1] - b) != 0:
            ctx.bad("region", fn.where(i), "the ROI is cut by different amounts in x and y", key="inner|xy|" + fn.fn)
            continue
        cb = S.const_of(b)
        if cb is not None and cb < half:
            ctx.bad("region", fn.where(i), "the ROI is cut by %s pixels; descriptors read %d" % (cb, half), key="inner|b|" + fn.fn)
            continue
        bad = False
        for k, ax, nmx in ((2, "x", "width"), (3, "y", "height")):
            d = v[k] + b + b
            ls = list(d.leaves())
            if len(ls) == 1 and S.const_of(d - Rat.leaf(ls[0])) is not None:
                dm = dims(ls[0])
                c = S.const_of(d - Rat.leaf(ls[0]))
                if dm and dm[1] != ax:
                    ctx.bad("region", fn.where(i), "the %s of the cut ROI comes from the other dimension" % nmx, key="inner|ax|" + fn.fn)
                    bad = True
                elif c > 0:
                    ctx.bad("region", fn.where(i), "the cut ROI reaches within the border at its far side (%s)" % nmx, key="inner|far|" + fn.fn)
                    bad = True
            elif all(l[0] == "M" or l in list(b.leaves()) for l in ls):
                ctx.bad("region", fn.where(i), "the %s of the cut ROI is not the image's %s minus twice the border" % (nmx, nmx), key="inner|far|" + fn.fn)
                bad = True
            else:
                ctx.notes.append("%s: ROI rectangle not resolved" % fn.where(i))
                bad = True
        if not bad:
            n_ok += 1
            ctx.ok("region", fn.where(i), "ROI cut to the inner rectangle")


def unc(t):
    if isinstance(t, tuple) and t and t[0] == "cast" and len(t) > 1 and isinstance(t[1], tuple):
        return unc(t[1])
    if isinstance(t, tuple):
        return tuple(unc(x) if isinstance(x, tuple) else x for x in t)
    return t
