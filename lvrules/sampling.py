"""V03: sampling positions stay inside the image, keep the roles of x and y, and leave room for the descriptor patch."""
from .flow import *
from .ratexp import *
from . import metrics as M
from . import video as V


def trat(t):
    """Rat of a value tuple"""
    if t[0] == "c" and isinstance(t[1], (int, float)):
        return Rat.c(Fraction(t[1]).limit_denominator(10**6) if isinstance(t[1], float) else t[1])
    if t[0] in ("b+", "b-", "b*") and len(t) == 3:
        a, b = trat(t[1]), trat(t[2])
        return a + b if t[0] == "b+" else a - b if t[0] == "b-" else a * b
    if t[0] == "u-":
        return Rat.c(0) - trat(t[1])
    return Rat.leaf(t)


def const_of(r):
    """value when the quotient is a constant"""
    if r.d == ONE and all(m == () for m in r.n):
        return r.n.get((), Fraction(0))
    return None


def is_position_fn(fn):
    o = [p for p in fn.params if p["t"].replace(" ", "") == "int&"]
    s = [p for p in fn.params if "Size" in p["t"]]
    return len(o) == 2 and len(s) == 1 and fn.cfg


class Bounds:
    """must-analysis of B <= X <= W-B-1 for the two coordinates that a position function hands back"""

    def __init__(self, P, fn):
        self.fn = fn
        self.G = G = Graph(P, fn, inline=M.noinline, maxdepth=6, drop_throw=True)
        inst = G.root
        o = [p for p in fn.params if p["t"].replace(" ", "") == "int&"]
        s = [p for p in fn.params if "Size" in p["t"]][0]
        k = fn.params.index(s)
        self.border = None
        if k > 0 and "int" in fn.params[k - 1]["t"] and "&" not in fn.params[k - 1]["t"]:
            self.border = fn.params[k - 1]
        P_ = lambda p: ("P", inst.id, p["id"], p["name"])
        self.X = P_(o[0]), P_(o[1])
        sz = P_(s)
        self.B = Rat.leaf(P_(self.border)) if self.border else Rat.c(0)
        self.W = Rat.leaf(("M", sz, "width")), Rat.leaf(("M", sz, "height"))
        self.opaque = set()
        self.run()

    def lo(self, k, e, strict=0):
        """e + strict >= B  (assuming the borders leave at least one pixel)"""
        c = const_of(e - self.B)
        if c is not None:
            return c + strict >= 0
        c = const_of(e - (self.W[k] - self.B - Rat.c(1)))
        return c is not None and c + strict >= 0

    def hi(self, k, e, strict=0):
        """e - strict <= W-B-1"""
        top = self.W[k] - self.B - Rat.c(1)
        c = const_of(top - e)
        if c is not None:
            return c + strict >= 0
        c = const_of(self.B - e)
        return c is not None and c + strict >= 0

    def from_atom(self, a):
        """{(bound, axis, variable)} that follow from the atom"""
        out = set()
        if a[0] == "or":
            l = [self.from_atom(x) for x in a[1]], [self.from_atom(x) for x in a[2]]
            u = [set().union(*x) if x else set() for x in l]
            return u[0] & u[1]
        if a[0] not in ("<", "<=", "==") or len(a) != 3:
            return out
        s = 1 if a[0] == "<" else 0
        for l, r in ((a[1], a[2]), (a[2], a[1])) if a[0] == "==" else ((a[1], a[2]),):
            d = trat(r) - trat(l)      # d >= s
            for x in d.leaves():
                if x[0] not in ("L", "P"):
                    continue
                X = Rat.leaf(x)
                for k in (0, 1):
                    e = X - d          # x >= e + s when e has no x
                    if x not in e.leaves() and self.lo(k, e, s):
                        out.add(("lo", k, x))
                    e = d + X          # x <= e - s
                    if x not in e.leaves() and self.hi(k, e, s):
                        out.add(("hi", k, x))
        return out

    def value(self, k, inst, nid, state, d=0):
        """subset of {lo, hi} that the value of an expression satisfies for axis k; None when it cannot be resolved"""
        n = inst.fn.nodes[nid]
        kk = n["k"]
        if d > 20:
            return None
        if kk in CASTS and n.get("ch"):
            return self.value(k, inst, n["ch"][0], state, d + 1)
        p = path(inst, nid)
        pv = val(inst, nid)
        out = {w for w, kx, x in state if kx == k and x in (p, pv)}
        if kk == "ConditionalOperator":
            r = []
            for b, pol in ((1, True), (2, False)):
                st = set(state)
                for a in atoms(inst, n["ch"][0], pol):
                    st |= self.from_atom(a)
                v = self.value(k, inst, n["ch"][b], st, d + 1)
                if v is None:
                    return None
                r.append(v)
            return r[0] & r[1]
        if kk in CALLS and last(n.get("fn", "")).split("<")[0] in ("max", "min") and nid not in inst.calls:
            _, args = callee_args(n)
            if len(args) == 2:
                a, b = [self.value(k, inst, x, state, d + 1) for x in args]
                if a is None or b is None:
                    return None
                up = "lo" if last(n["fn"]).startswith("max") else "hi"
                return {w for w in ("lo", "hi") if (w in a or w in b if w == up else w in a and w in b)}
        if kk in CALLS and last(n.get("fn", "")).split("<")[0] == "clamp":
            _, args = callee_args(n)
            if len(args) == 3:
                a, b = [self.value(k, inst, x, state, d + 1) or set() for x in args[1:]]
                return ({"lo"} & a) | ({"hi"} & b)
        if kk in CALLS and nid in inst.calls:
            ci = inst.calls[nid]
            out = None
            for rn in ci.rets:
                if not rn.n().get("ch"):
                    return None
                if rn.i not in self.OUT:
                    continue
                v = self.value(k, ci, rn.n()["ch"][0], self.OUT[rn.i], d + 1)
                if v is None:
                    return None
                out = v if out is None else out & v
            return out
        if kk in CALLS and nid not in inst.calls and not (kk == "CXXOperatorCallExpr" and n.get("op") == "[]"):
            if last(n.get("fn", "")).split("<")[0] not in ("at", "size"):
                return None
        r = trat(val(inst, nid))
        if self.lo(k, r):
            out.add("lo")
        if self.hi(k, r):
            out.add("hi")
        return out

    def run(self):
        G = self.G
        order = G.rpo()
        self.IN, self.OUT = IN, OUT = {}, {}
        ch, rounds = True, 0
        while ch and rounds < 40:
            ch = False
            rounds += 1
            for u in order:
                nd = G.nodes[u]
                if u == G.entry.i:
                    s = frozenset()
                else:
                    s = None
                    for p, c in nd.pred:
                        o = OUT.get(p)
                        if o is None:
                            continue
                        if c is not None:
                            for a in edge_atoms(c):
                                o = o | self.from_atom(a)
                        s = o if s is None else s & o
                    if s is None:
                        continue
                o = s
                if nd.kind == "stmt":
                    n = nd.n()
                    inst = nd.inst
                    if n["k"] == "DeclStmt":
                        for d in n["decls"]:
                            if d.get("init", -1) >= 0:
                                x = ("L", inst.id, d["id"], d["name"])
                                o = self.assign(inst, x, d["init"], o)
                    else:
                        for x in lhs_written(inst, nd.ref):
                            if x[0] not in ("L", "P"):
                                continue
                            if n["k"] == "BinaryOperator" and n.get("op") == "=":
                                o = self.assign(inst, x, n["ch"][1], o)
                            else:
                                o = frozenset(t for t in o if t[2] != x)
                                if n["k"] in CALLS and nd.ref not in inst.calls and x in self.X:
                                    self.opaque.add(self.X.index(x))
                if IN.get(u) != s or OUT.get(u) != o:
                    IN[u], OUT[u] = s, o
                    ch = True

    def assign(self, inst, x, rhs, o):
        add = set()
        for k in (0, 1):
            v = self.value(k, inst, rhs, o)
            if v is None:
                if x in self.X and self.X.index(x) == k:
                    self.opaque.add(k)
                v = ()
            add |= {(w, k, x) for w in v}
        return frozenset(t for t in o if t[2] != x) | add

    def exit(self):
        return self.IN.get(self.G.exit.i, frozenset())


def v03(P, ctx):
    pos = {}
    for fn in P.all():
        if is_position_fn(fn) and fn.fk not in pos and "/modules/" in fn.file:
            pos[fn.fk] = fn
    seen = set()
    for fn in sorted(pos.values(), key=lambda f: f.fn):
        nm = last(fn.fn).split("<")[0]
        if (nm, fn.line) in seen:
            continue
        seen.add((nm, fn.line))
        b = Bounds(P, fn)
        E = b.exit()
        for k, ax in ((0, "x"), (1, "y")):
            for w, tx in (("lo", "below the border"), ("hi", "beyond the last pixel before the border")):
                if k in b.opaque:
                    ctx.notes.append("%s: %s coordinate not resolved" % (fn.where(), ax))
                    continue
                if (w, k, b.X[k]) in E:
                    ctx.ok("inside", fn.where(), "%s: %s %s" % (nm, ax, w))
                else:
                    ctx.bad("inside", fn.where(), "%s can hand back a %s coordinate %s" % (nm, ax, tx), key="inside|%s|%s|%s" % (nm, ax, w))
        tables(P, ctx, fn, nm)
    roles = coord_fields(P)
    half = patch_half(P)
    sites(P, ctx, pos, roles, half)


# ------------------------------------------------------------------------------------------------ kernel tables
def consts_in(fn, nid):
    """rows of integer constants of a (nested) initialiser"""
    n = fn.nodes[nid]
    ch = [c for c in n.get("ch", []) if c >= 0]
    if "c" in n and isinstance(n["c"], int):
        return n["c"]
    if not ch:
        return None
    l = [consts_in(fn, c) for c in ch]
    l = [x for x in l if x is not None]
    while len(l) == 1 and isinstance(l[0], list):
        l = l[0]
    return l if l else None


def flat(x):
    return [x] if isinstance(x, int) else [z for y in x for z in flat(y)] if x else []


def tables(P, ctx, fn, nm):
    """weights of a sampling kernel add up to the total the random index is reduced by; neighbours are distinct, never the pixel itself"""
    for n in fn.nodes:
        if not n or n["k"] not in CALLS:
            continue
        _, args = callee_args(n)
        if not args:
            continue
        tab = None
        a0 = fn.nodes[M.strip(fn, args[0])]
        if a0["k"] == "DeclRefExpr":
            d = decls_of(fn).get(a0["d"])
            if d and d.get("init", -1) >= 0:
                tab = consts_in(fn, d["init"])
        if not tab or not isinstance(tab, list) or not isinstance(tab[0], list):
            continue
        where = fn.where()
        if all(isinstance(r, list) and len(r) == 2 for r in tab) and len(tab) > 3:
            pts = [tuple(r) for r in tab]
            if len(set(pts)) != len(pts) or (0, 0) in pts:
                ctx.bad("kernel", where, "%s: the neighbour pattern repeats a neighbour or contains the pixel itself" % nm, key="nb|" + nm)
            else:
                ctx.ok("kernel", where, "%s: %d distinct neighbours" % (nm, len(pts)))
            continue
        if len(args) > 1:
            t = fn.nodes[M.strip(fn, args[1])]
            tot = t.get("c")
            if tot is None and t["k"] == "DeclRefExpr":
                d = decls_of(fn).get(t["d"])
                if d and d.get("init", -1) >= 0:
                    tot = fn.nodes[M.strip(fn, d["init"])].get("c")
            if tot is None:
                continue
            s = sum(flat(tab))
            if s != tot or any(x < 0 for x in flat(tab)):
                ctx.bad("kernel", where, "%s: the kernel weights add up to %d but indices are drawn out of %d" % (nm, s, tot), key="kernel|" + nm)
            else:
                ctx.ok("kernel", where, "%s: weights add up to %d" % (nm, s))


# ------------------------------------------------------------------------------------------------ call sites
def coord_fields(P):
    """{field: 'x'|'y'} of pixel lookup tables, from index%width and index/width"""
    out = {}
    for fn in P.all():
        for n in fn.nodes:
            if not n or n["k"] != "BinaryOperator" or n.get("op") != "=":
                continue
            l = fn.nodes[n["ch"][0]]
            r = fn.nodes[M.strip(fn, n["ch"][1])]
            if l["k"] != "MemberExpr" or r["k"] != "BinaryOperator" or r["op"] not in ("/", "%"):
                continue
            d = fn.nodes[M.strip(fn, r["ch"][1])]
            if d["k"] == "MemberExpr" and d["n"] in ("width", "cols"):
                out.setdefault((l.get("q") or l["n"]), set()).add("x" if r["op"] == "%" else "y")
    return {k: v for k, v in out.items()}


def patch_half(P):
    for fn in P.all():
        for n in fn.nodes:
            if n and n["k"] == "DeclRefExpr" and n.get("q") == "LBSP::PATCH_SIZE" and isinstance(n.get("c"), int):
                return n["c"] // 2
    return None


def role(inst, nid, roles, d=0):
    """is the expression an x or a y coordinate of the image"""
    fn = inst.fn
    n = fn.nodes[nid]
    if d > 10:
        return None
    if n["k"] in CASTS and n.get("ch"):
        return role(inst, n["ch"][0], roles, d + 1)
    if n["k"] == "MemberExpr":
        r = roles.get(n.get("q") or n["n"])
        if r and len(r) == 1:
            return next(iter(r))
        return None
    if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        owner, info = inst.find_decl(n["d"])
        if owner is None:
            return None
        if info is not None and info.get("init", -1) >= 0 and n["d"] not in mutated(owner.fn):
            return role(owner, info["init"], roles, d + 1)
        for i, m in enumerate(owner.fn.nodes):
            if m and m["k"] == "ForStmt":
                lr = M.loop_range(owner.fn, i)
                if lr and lr[0] == n["d"]:
                    b = val(owner, lr[2])
                    if b[0] == "M" and b[2] in ("width", "cols"):
                        return "x"
                    if b[0] == "M" and b[2] in ("height", "rows"):
                        return "y"
    return None


def sites(P, ctx, pos, roles, half):
    done = set()
    for fn in P.all():
        if fn.fk in pos or not "/modules/" in fn.file or not fn.cfg:
            continue
        calls = [(i, n) for i, n in enumerate(fn.nodes) if n and n["k"] == "CallExpr" and n.get("fk") in pos]
        if not calls or (fn.fn, fn.line) in done:
            continue
        done.add((fn.fn, fn.line))
        inst = Inst(fn, this=("this",), dyn=fn.rec)
        lbsp = any("LBSP" in r for r in [fn.rec or ""] + list(P.bases(fn.rec) if fn.rec else []))
        outs = {}
        for i, n in calls:
            f = pos[n["fk"]]
            _, args = callee_args(n)
            oi = [k for k, p in enumerate(f.params) if p["t"].replace(" ", "") == "int&"]
            si = [k for k, p in enumerate(f.params) if "Size" in p["t"]][0]
            if len(args) <= si:
                continue
            X, Y = path(inst, args[oi[0]]), path(inst, args[oi[1]])
            S = val(inst, args[si])
            where = fn.where(i)
            key = "%s|%s" % (fn.rec or fn.fn, fn.nodes[i].get("line"))
            if X == Y:
                ctx.bad("roles", where, "the same variable receives both coordinates", key="same|" + site(fn, i))
            prev = outs.get(X)
            outs.setdefault(X, ("x", S))
            outs.setdefault(Y, ("y", S))
            if prev and prev[0] != "x" or outs[Y][0] != "y":
                ctx.bad("roles", where, "x and y receive swapped coordinates here and elsewhere", key="swap|" + site(fn, i))
            # origin
            ro = [role(inst, a, roles) for a in args[oi[1] + 1:oi[1] + 3]]
            if ro[0] == "y" or len(ro) > 1 and ro[1] == "x":
                ctx.bad("roles", where, "the position is drawn around (y,x) instead of (x,y)", key="origin|" + site(fn, i))
            elif ro == ["x", "y"]:
                ctx.ok("roles", where, "drawn around (x,y)")
            # border
            b = val(inst, args[si - 1])
            if lbsp and half is not None and b[0] == "c":
                if b[1] < half:
                    ctx.bad("border", where, "descriptors read %d pixels around the position, which may be as close as %s to the image border" % (half, b[1]), key="border|" + site(fn, i))
                else:
                    ctx.ok("border", where, "border %s" % b[1])
        uses(P, ctx, fn, inst, outs)
    # whole-image loops of any function
    for fn in P.all():
        if "/modules/" not in fn.file or not fn.cfg or ("loops", fn.fn, fn.line) in done:
            continue
        done.add(("loops", fn.fn, fn.line))
        outs = {}
        inst = Inst(fn, this=("this",), dyn=fn.rec)
        for i, m in enumerate(fn.nodes):
            if not m or m["k"] != "ForStmt":
                continue
            lr = M.loop_range(fn, i)
            if not lr:
                continue
            b = val(inst, lr[2])
            while b[0] == "cast" or b[0] == "b-" and b[2][0] == "c":
                b = b[1]
            r = None
            if b[0] == "M" and b[2] in ("width", "cols"):
                r = "x"
            elif b[0] == "M" and b[2] in ("height", "rows"):
                r = "y"
            if r:
                d = decls_of(fn).get(lr[0])
                if d:
                    outs[("L", inst.id, lr[0], d["name"])] = (r, b[1])
        if any(o[0] == "x" for o in outs.values()) and any(o[0] == "y" for o in outs.values()):
            uses(P, ctx, fn, inst, outs, loops=True)


def site(fn, i):
    return "%s|%s|%d" % (fn.rec, last(fn.fn), sum(1 for k in range(i) if fn.nodes[k] and fn.nodes[k]["k"] == "CallExpr" and fn.nodes[k].get("fn") == fn.nodes[i].get("fn")))


def uses(P, ctx, fn, inst, outs, loops=False):
    par = fn.parents()
    count = 0
    for i, n in enumerate(fn.nodes):
        if not n:
            continue
        if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in ("at", "ptr"):
            _, args = callee_args(n)
            r = [outs.get(path(inst, a), (None,))[0] for a in args[:2]]
            if not any(r):
                continue
            count += 1
            if r[0] == "x" or len(r) > 1 and r[1] == "y":
                ctx.bad("roles", fn.where(i), "element accessed as (x,y); matrices are indexed (row,column)", key="at|%s|%s|%d" % (fn.rec, last(fn.fn), count))
            else:
                ctx.ok("roles", fn.where(i), "(row,column)")
        elif n["k"] == "BinaryOperator" and n["op"] == "+" and not (i in par and fn.nodes[par[i]]["k"] == "BinaryOperator" and fn.nodes[par[i]]["op"] in ("+", "-")):
            r = rat(inst, i)
            if r.d != ONE:
                continue
            ls = [l for l in r.leaves() if l in outs]
            xs = [l for l in ls if outs[l][0] == "x"]
            ys = [l for l in ls if outs[l][0] == "y"]
            if len(xs) != 1 or len(ys) != 1:
                continue
            cx, cy = coef(r, xs[0]), coef(r, ys[0])
            if cx is None or cy is None:
                continue
            S = outs[xs[0]][1]
            W = Rat.leaf(("M", S, "width"))
            count += 1
            if loops and outs[ys[0]][1] != S:
                continue
            H = [Rat.leaf(("M", S, q)) for q in ("height", "rows")]
            if loops and not (any(Rat(cy) == Rat(cx) * h for h in H) or any(Rat(cx) == Rat(cy) * Rat.leaf(("M", S, q)) for q in ("height", "rows", "width", "cols"))):
                ctx.ok("roles", fn.where(i), "row-major")
            elif Rat(cy) == Rat(cx) * W:
                ctx.ok("roles", fn.where(i), "row*width+column")
            elif strange(cx) or strange(cy):
                ctx.notes.append("%s: index of a sample not resolved (%s)" % (fn.where(i), r))
            else:
                ctx.bad("roles", fn.where(i), "the sample index is not row*width+column of the image it was drawn in (%s)" % r, key="lin|%s|%s|%d" % (fn.rec, last(fn.fn), count))
        elif n["k"] in ("CallExpr", "CXXMemberCallExpr") and "fk" in n and "computeDescriptor" in n.get("fn", ""):
            f = P.get(n["fk"], fn.tu)
            _, args = callee_args(n)
            if f is None:
                continue
            prs = [p["name"] for p in f.params]
            for p, a in zip(prs, args):
                q = p.strip("_").lower()
                o = outs.get(path(inst, a))
                if o and q in ("x", "y"):
                    if q != o[0]:
                        ctx.bad("roles", fn.where(i), "the descriptor is computed at (y,x) of the sample", key="desc|%s|%s|%s" % (fn.rec, last(fn.fn), i))
                    else:
                        ctx.ok("roles", fn.where(i), "descriptor at (x,y)")


def coef(r, x):
    """polynomial factor of x (degree 1) in r, None otherwise"""
    out = {}
    for m, c in r.n.items():
        k = m.count(x)
        if k == 0:
            continue
        if k > 1:
            return None
        mm = tuple(l for l in m if l != x)
        out[mm] = out.get(mm, 0) + c
    return out


def strange(p):
    """steps or unknown quantities occur"""
    for m in p:
        for l in m:
            if any(x[0] == "M" and x[2] in ("step", "p") for x in leaves(l)) or l[0] in ("?", "n", "rec", "call", "trunc", "intdiv", "idx"):
                return True
    return False
