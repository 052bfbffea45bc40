"""I01: the memory of a caller's matrix is only addressed as one contiguous run once the matrix is known to be continuous."""
import re
from .flow import *
from . import metrics as M
from . import archive as A


class Tok(A.Tokens):
    """matrices known to be continuous (an empty matrix becomes continuous when it is created)"""

    def from_atoms(self, al):
        out = A.Tokens.from_atoms(self, [a for a in al if a[0] != "or"])
        for a in al:
            if a[0] == "true" and a[1][0] == "call" and len(a[1]) == 3 and last(a[1][1]) == "empty":
                out.add(("cont", a[1][2]))
            if a[0] == "true" and a[1][0] == "call" and len(a[1]) == 3 and last(a[1][1]) == "empty":
                out.add(("size", a[1][2]))
            xy = a[1:3] if a[0] == "==" and len(a) == 3 else a[1][2:4] if a[0] == "true" and a[1][0] == "call" and len(a[1]) == 4 and last(a[1][1]).startswith("operator==") else ()
            if len(xy) == 2:
                m = [mats(x, set()) for x in xy]
                for i in (0, 1):
                    if len(m[i]) == 1 and m[1 - i] and not m[i] <= m[1 - i] and ("ize" in repr(xy[i]) or "MatInfo" in repr(xy[i])):
                        out |= {("size", x) for x in m[i]}
            if a[0] == "or":
                out |= self.from_atoms(a[1]) & self.from_atoms(a[2])
        return out


    def run(self):
        self.MF = MustFacts(self.G)
        A.Tokens.run(self)

    def step(self, nd, s):
        s = frozenset(s) | frozenset(self.from_atoms(self.MF.at(nd.i) or ()))
        r = A.Tokens.step(self, nd, s)
        keep = {t for t in s if t[0] == "size"}
        n = nd.n() if nd.kind == "stmt" else None
        if n and n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] == "create" and "cv::Mat" in n.get("fn", ""):
            keep.add(("size", A.member_obj(nd.inst, n)))
        return frozenset(r) | keep


def mats(t, out):
    """the caller's matrices a term mentions"""
    if isinstance(t, tuple) and t:
        if t[0] in ("P", "L") and len(t) == 4:
            out.add(t)
        else:
            for x in t:
                mats(x, out)
    return out


class S:
    def __init__(self, G):
        self.G, self.reach = G, {n.i for n in G.nodes}


def is_mat(t):
    return re.match(r"(const )?cv::Mat_?(<.*>)? ?&?$", t) is not None


def steps(fn, nid, par):
    """the address is computed with a step of the matrix (or the pointer is only compared)"""
    i = nid
    while i in par and par[i] is not None:
        i = par[i]
        n = fn.nodes[i]
        if n["k"] == "BinaryOperator" and n.get("op") in ("==", "!="):
            return True
        if n["k"] in ("CompoundStmt", "DeclStmt", "ReturnStmt", "IfStmt", "ForStmt", "WhileStmt") or n["k"].endswith("Stmt"):
            break
        st = [i]
        while st:
            x = st.pop()
            m = fn.nodes[x]
            if m["k"] == "MemberExpr" and (m.get("n") in ("step", "dataend", "datastart")) or m["k"] in CALLS and last(m.get("fn", "")).split("<")[0] in ("step1", "dim"):
                return True
            st += [c for c in m.get("ch", []) if c is not None and c >= 0]
    return False


def i01(P, ctx):
    fs = [f for f in A.uniq(P) if f.cfg and re.search(r"/modules/(imgproc|features2d)/", f.file) and "/test/" not in f.file]
    inner = set()      # functions used by other functions of the same class: reached through them
    for f in fs:
        for n in A.calls_of(f):
            g = n.get("fk")
            if g and g != f.fk:
                inner.add((g, f.rec or ""))
    for f in fs:
        if f.kind == "lambda" or not any(is_mat(p["t"]) for p in f.params) or f.rec and (f.fk, f.rec) in inner or not (f.rec or f.fn.startswith("lv::")):
            continue
        one(P, ctx, f)


def one(P, ctx, f):
    G = Graph(P, f, inline=A.inl, maxdepth=4, drop_throw=True)
    T = Tok(S(G))
    pid = {p["id"]: p["name"] for p in f.params if is_mat(p["t"])}
    seen, strided = set(), set()
    for inst in G.insts:
        for n in inst.fn.nodes:
            if n and n["k"] == "MemberExpr" and n.get("n") == "step" and n.get("ch"):
                strided.add(path(inst, n["ch"][0]))
    asked = set()      # matrices a predicate with several ways out asks about: what its answer means is not resolved
    for inst in G.insts:
        if inst is not G.root and inst.fn.rt == "bool" and inst.fn.kind != "lambda" and len(inst.rets) > 1:
            for n in inst.fn.nodes:
                if n and n["k"] == "MemberExpr" and n.get("n") == "isContinuous" and n.get("ch"):
                    asked.add(path(inst, n["ch"][0]))
    own = set()      # matrices whose own extent bounds the loops
    for inst in G.insts:
        for n in inst.fn.nodes:
            if n and n["k"] == "MemberExpr" and n.get("n") in ("rows", "cols", "total") and n.get("ch"):
                own.add(path(inst, n["ch"][0]))
    for nd in G.stmts():
        inst = nd.inst
        fn = inst.fn
        n = nd.n()
        if n["k"] != "MemberExpr" or n.get("n") != "data" or not n.get("ch"):
            continue
        X = path(inst, n["ch"][0])
        if X[0] != "P" or X[1] != G.root.id or X[2] not in pid:
            continue
        if steps(fn, nd.ref, fn.parents()):
            continue
        w = inst.where(nd.ref)
        nm = last(f.fn) if not f.rec else f.fn
        if ("cont", X) in T.OUT.get(nd.i, ()):
            if (w, X) not in seen:
                seen.add((w, X))
                ctx.ok("one-run", w, "%s: '%s' is continuous" % (nm, pid[X[2]]))
        elif X in asked:
            ctx.notes.append("%s: answer of a predicate about '%s' not resolved" % (w, pid[X[2]]))
        elif X in strided:
            ctx.notes.append("%s: rows of '%s' may be addressed by its step" % (w, pid[X[2]]))
        else:
            ctx.bad("one-run", w, "%s addresses the memory of '%s' as one run without having established that it is continuous" % (nm, pid[X[2]]),
                    key="run|%s|%s" % (nm, pid[X[2]]))
        if X in own or X in strided or X in asked or ("sz", w, X) in seen:
            continue
        seen.add(("sz", w, X))
        if ("size", X) in T.OUT.get(nd.i, ()):
            ctx.ok("same-size", w, "%s: '%s' has the size of another matrix" % (nm, pid[X[2]]))
        else:
            ctx.bad("same-size", w, "%s addresses '%s' by the pixels of another matrix without having established that they have the same size" % (nm, pid[X[2]]),
                    key="size|%s|%s" % (nm, pid[X[2]]))
