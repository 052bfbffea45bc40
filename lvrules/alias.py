"""A01: read-only image arguments are never written through a matrix header that shares their memory."""
import re
from .flow import Graph, MustFacts, path, val, last, callee_args, edge_atoms, lhs_written, sub, CALLS, CASTS, ASSIGN

NEGN = {"true": "false", "false": "true", "==": "!=", "!=": "=="}


def NEGA(a):
    return (NEGN[a[0]],) + tuple(a[1:])


VIEW = {"operator()", "row", "col", "rowRange", "colRange", "reshape", "diag", "getMat", "getMat_", "getMatVector", "at", "front", "back", "operator[]", "begin", "end", "get", "operator*", "operator->",
        "ptr", "data", "second", "first"}
FRESH = {"clone", "t", "mul", "inv", "zeros", "ones", "eye", "cross"}
MUTATE = {"setTo", "push_back"}
READ_T = re.compile(r"^(const )?cv::(Mat|Mat_<.*>|_InputArray|_InputOutputArray|_OutputArray|UMat)( &)?$")


def matlike(t):
    t = t.replace("const ", "").rstrip(" &*")
    return t.startswith("cv::Mat") and not t.startswith(("cv::MatSize", "cv::MatStep", "cv::MatExpr", "cv::MatConst")) or t in ("cv::_InputArray", "cv::_InputOutputArray")


def ro_param(t):
    """parameter type through which a caller lends an image for reading"""
    if not t.endswith("&") or not t.startswith("const "):
        return False
    b = t[6:-1].strip()
    if b == "cv::_InputArray":
        return True
    if b.startswith(("cv::MatSize", "cv::MatStep", "cv::MatExpr", "cv::MatConst")):
        return False
    return b == "cv::Mat" or b.startswith("cv::Mat_<") or re.match(r"^std::(vector|array|tuple|pair)<.*cv::Mat[_<>, ]", b) is not None and "function" not in b


class Alias:
    def __init__(self, P, fn, fields=None):
        self.P = P
        self.fn = fn
        self.G = Graph(P, fn, inline=lambda i, n, c: c.kind == "lambda" or c.file == fn.file and c.rec == fn.rec and c.fk != fn.fk and c.access != "public" or c.file == fn.file and "(anonymous" in c.fn, maxdepth=3, drop_throw=True)
        r = self.G.root
        self.src = {("P", r.id, p["id"], p["name"]): p for p in fn.params if ro_param(p["t"])} if fields is None else {f: {"name": f[-1]} for f in fields}

    # which lent images may expression nid share memory with (st: frozenset of (path, param))
    def al(self, inst, nid, st, depth=0):
        if nid is None or nid < 0 or depth > 25:
            return frozenset()
        n = inst.fn.nodes[nid]
        k = n["k"]
        if k == "DeclRefExpr":
            p = path(inst, nid)
            return self.of(p, st)
        if k in CASTS or k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "ParenExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CStyleCastExpr", "CXXConstCastExpr"):
            return self.al(inst, n["ch"][0], st, depth + 1) if n.get("ch") else frozenset()
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = n.get("t", "")
            if matlike(t) or "vector" in t or "OutputArray" in t or "InputArray" in t:
                out = frozenset()
                for i, c in enumerate(n.get("ch", [])):
                    ct = inst.fn.nodes[c].get("t", "")
                    if i == 0 and (matlike(ct) or "vector" in ct or "cv::_" in ct) or ct.endswith("*") and "int *" not in ct or "initializer_list" in ct:
                        out |= self.al(inst, c, st, depth + 1)
                return out
            return frozenset()
        if k == "ConditionalOperator":
            return self.al(inst, n["ch"][1], st, depth + 1) | self.al(inst, n["ch"][2], st, depth + 1)
        if k == "MemberExpr":
            if n.get("n") in ("data", "first", "second", "datastart"):
                return self.al(inst, n["ch"][0], st, depth + 1) if n.get("ch") else frozenset()
            t = n.get("t", "")
            return self.of(path(inst, nid), st) if matlike(t) or "vector" in t or t.endswith("*") else frozenset()
        if k == "CXXOperatorCallExpr":
            if n.get("op") in ("[]", "()", "*", "->", "++", "--"):
                return self.al(inst, n["ch"][1], st, depth + 1)
            if n.get("op") in ("+", "-") and ("Iterator" in n.get("t", "") or "*" in n.get("t", "")):
                return self.al(inst, n["ch"][1], st, depth + 1)
            if n.get("op") == "=":
                return self.al(inst, n["ch"][1], st, depth + 1)
            return frozenset()
        if k == "CXXMemberCallExpr":
            nm = last(n.get("fn", ""))
            m = inst.fn.nodes[n["ch"][0]]
            if nm in VIEW and m["k"] == "MemberExpr" and m.get("ch"):
                return self.al(inst, m["ch"][0], st, depth + 1)
            if nm.startswith("operator ") and m["k"] == "MemberExpr" and m.get("ch"):   # conversions
                return self.al(inst, m["ch"][0], st, depth + 1)
            return frozenset()
        if k == "CallExpr":
            nm = last(n.get("fn", ""))
            if n.get("fn", "").startswith("std::") and nm.split("<")[0] in ("get", "move", "forward", "ref", "begin", "end"):
                a = callee_args(n)[1]
                return self.al(inst, a[0], st, depth + 1) if a else frozenset()
            return frozenset()
        if k == "BinaryOperator" and n.get("op") in ("+", "-") and "*" in n.get("t", ""):
            return self.al(inst, n["ch"][0], st, depth + 1) | self.al(inst, n["ch"][1], st, depth + 1)
        if k in ("ArraySubscriptExpr",):
            return self.al(inst, n["ch"][0], st, depth + 1)
        if k == "UnaryOperator" and n.get("op") in ("*", "&", "++", "--", "post++", "post--"):
            return self.al(inst, n["ch"][0], st, depth + 1)
        if k == "InitListExpr":
            out = frozenset()
            for c in n.get("ch", []):
                out |= self.al(inst, c, st, depth + 1)
            return out
        return frozenset()

    def static(self, q):
        for nd in self.G.stmts():
            if nd.n()["k"] == "DeclStmt" and nd.inst.id == q[1]:
                for d in nd.n()["decls"]:
                    if d["id"] == q[2]:
                        return bool(d.get("static"))
        return False

    def of(self, p, st):
        out = set()
        q = p
        while isinstance(q, tuple) and q:
            for (x, s, tags) in st:
                if x == q and not any(NEGA(t) in self.facts for t in tags):
                    out.add(s)
            if q in self.src:
                out.add(q)
            if q[0] in ("idx", "&", "*", "op*", "op->", "M", "op()") and len(q) > 1 and isinstance(q[1], tuple):
                q = q[1]
            elif q[0] == "call" and len(q) > 2 and last(q[1]).split("<")[0] in ("get", "at", "getMat", "front", "back") and isinstance(q[2], tuple):
                q = q[2]
            else:
                break
        return frozenset(out)


def join(a, b):
    """union; sharings that survive under weaker conditions absorb those under stronger ones, at most two variants each"""
    if a == b or not b:
        return a
    d = {}
    for p, s, t in a | b:
        d.setdefault((p, s), set()).add(t)
    out = set()
    for (p, s), ts in d.items():
        ts = {t for t in ts if not any(u < t for u in ts)}
        if len(ts) > 2:
            ts = {frozenset.intersection(*ts)}
        out |= {(p, s, t) for t in ts}
    return frozenset(out)


def ptr_written(t):
    """is t a pointer or iterator type through which elements can be written"""
    return t.endswith("*") and not t.startswith("const ") or t.endswith("* const") and not t.startswith("const ")


def analyse(P, fn, report, fields=None):
    A = Alias(P, fn, fields)
    if not A.src:
        return None
    G = A.G
    order = G.rpo()
    OUT = {}
    sites = [0]
    A.facts = frozenset()
    MF = MustFacts(G)

    at = {(nd.inst.id, nd.ref): nd.i for nd in G.stmts()}

    def before(inst, a):
        """facts before argument a was wrapped for the call"""
        fs = set(A.facts)
        j = a
        while True:
            if (inst.id, j) in at:
                fs |= set(MF.at(at[(inst.id, j)]))
            m = inst.fn.nodes[j]
            if not m.get("ch") or m["k"] == "DeclRefExpr":
                return fs
            j = m["ch"][0]

    def edge(st, c):
        """conditions on plain variables under which a sharing survives"""
        if c is None or c[0] != "if" or not st:
            return st
        ts = [a for a in edge_atoms(c, G) if a[0] in NEGN and all(isinstance(x, tuple) and (x[:1] == ("L",) or x == ("c", 0)) for x in a[1:])]
        if not ts:
            return st
        return frozenset((p, s, frozenset(sorted(set(t) | set(ts), key=repr)[:3])) for p, s, t in st if not any(NEGA(a) in t for a in ts))

    def step(nd, st, rep):
        if nd.kind != "stmt":
            return st
        inst, n = nd.inst, nd.n()
        k = n["k"]
        A.facts = MF.at(nd.i)
        if st:
            w = [q for q in lhs_written(inst, nd.ref) if q[:1] == ("L",)]
            if k == "DeclStmt":
                w += [("L", inst.id, d["id"], d["name"]) for d in n["decls"]]
            if w:
                st = frozenset((p, s, frozenset(t for t in ts if not any(sub(t, q) for q in w))) for p, s, ts in st)

        def bind(p, als, weak=False):
            nonlocal st
            if not weak:
                st = frozenset(x for x in st if x[0] != p)
            st = st | {(p, s, frozenset()) for s in als}
        if k == "DeclStmt":
            for d in n["decls"]:
                p = ("L", inst.id, d["id"], d["name"])
                t = d.get("t", "")
                if d.get("init", -1) >= 0 and (matlike(t) or "vector" in t or ptr_written(t) or "Iterator" in t):
                    if t.endswith("&"):
                        continue
                    bind(p, A.al(inst, d["init"], st))
            return st
        # --- writes through memory of a lent image
        def hit(als, how):
            sites[0] += 1
            if als and rep:
                for s in sorted(als):
                    rep(nd, A.src[s]["name"], how)
        if (k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN) or k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
            l = inst.fn.nodes[n["ch"][0]]
            t = l.get("t", "")
            j = n["ch"][0]
            while inst.fn.nodes[j]["k"] in CASTS or inst.fn.nodes[j]["k"] == "ParenExpr":
                j = inst.fn.nodes[j]["ch"][0]
            l = inst.fn.nodes[j]
            if l["k"] == "DeclRefExpr" or l["k"] == "MemberExpr":
                if ptr_written(t) and k == "BinaryOperator" and n["op"] == "=":
                    bind(path(inst, j), A.al(inst, n["ch"][1], st))
                elif l["k"] == "MemberExpr" and l.get("ch"):
                    b = inst.fn.nodes[l["ch"][0]]
                    if b["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr", "UnaryOperator") and l.get("n") not in ("data",) and not matlike(t):
                        if pixelref(inst, l["ch"][0]):
                            hit(A.al(inst, l["ch"][0], st), "writes a field of a pixel")
                return st
            if pixelref(inst, j):
                hit(A.al(inst, j, st), "writes a pixel")
            return st
        if k == "CXXOperatorCallExpr" and (n.get("op") in ASSIGN or n.get("op") in ("++", "--")) and len(n["ch"]) > 1:
            j = n["ch"][1]
            lt = inst.fn.nodes[j].get("t", "")
            if matlike(lt) and not pixelref(inst, j):
                p = path(inst, j)
                if n["op"] == "=":
                    rt = strip_t(inst, n["ch"][2])
                    pt = n.get("pt", [""])[-1]
                    if matlike(rt) and "MatExpr" not in pt and "Scalar" not in pt:
                        a = A.al(inst, n["ch"][2], st)
                        # assigning to an element of a lent container is impossible (const); to a view temporary rebinds it
                        bind(p, a)
                    elif "Scalar" in pt or "Scalar" in rt or "_" in pt and "Initializer" in pt:
                        hit(A.al(inst, j, st), "fills the matrix")
                    elif "MatExpr" in pt or "MatExpr" in rt:
                        hit(A.al(inst, j, st), "evaluates an expression into the matrix")
                        bind(p, frozenset())
                    else:
                        bind(p, frozenset())
                else:
                    hit(A.al(inst, j, st), "updates the matrix in place")
                return st
            if "vector" in lt and n["op"] == "=":
                bind(path(inst, j), A.al(inst, n["ch"][2], st))
                return st
            if n["op"] in ASSIGN and pixelref(inst, j):
                hit(A.al(inst, j, st), "writes a pixel")
            elif n["op"] == "=" and "terator" in lt:
                bind(path(inst, j), A.al(inst, n["ch"][2], st))
            return st
        if k in CALLS:
            if nd.ref in inst.calls or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (matlike(n.get("t", "")) or "cv::_" in n.get("t", "")):
                return st
            obj, args = callee_args(n)
            nm = last(n.get("fn", ""))
            pts = n.get("pt", [])
            for a, t in zip(args, pts):
                als = None
                if t in ("const cv::_OutputArray &", "const cv::_InputOutputArray &") or t.endswith("&") and not t.startswith("const ") and not t.endswith("&&") and matlike(t):
                    als = A.al(inst, a, st)
                    if als and n.get("fn", "").startswith("cv::") and realloc(A, nm, inst, n, a, args, als, st, before(inst, a)):
                        # the destination has another type than the source: a new matrix is allocated
                        j = a
                        p = dest(inst, a)
                        if p:
                            bind(p, frozenset())
                        continue
                    hit(als, "gives it to %s as destination" % n.get("fn", "?"))
                    p = dest(inst, a)
                elif ptr_written(t) and "char" in t + "void" and nm in ("memcpy", "memset", "memmove", "fill", "copy", "__builtin_memcpy"):
                    if args.index(a) == 0:
                        hit(A.al(inst, a, st), "copies into its memory with " + nm)
                elif ptr_written(t) and not matlike(t) and not n.get("fn", "").startswith("std::"):
                    als = A.al(inst, a, st)
                    if als:
                        hit(als, "gives a writable pointer to its data to %s" % n.get("fn", "?"))
            if k == "CXXMemberCallExpr":
                m = inst.fn.nodes[n["ch"][0]]
                if m["k"] == "MemberExpr" and m.get("ch"):
                    if nm in MUTATE and matlike(inst.fn.nodes[m["ch"][0]].get("t", "")):
                        if nm == "setTo":
                            hit(A.al(inst, m["ch"][0], st), "fills the matrix")
                    elif nm in ("push_back", "emplace_back") and "vector" in inst.fn.nodes[m["ch"][0]].get("t", "") and args:
                        bind(path(inst, m["ch"][0]), A.al(inst, args[0], st), weak=True)
                    elif nm in ("release", "create") and matlike(inst.fn.nodes[m["ch"][0]].get("t", "")):
                        if nm == "release":
                            bind(path(inst, m["ch"][0]), frozenset())
            if n.get("fn", "").startswith("std::") and nm.split("<")[0] in ("fill", "sort", "copy", "transform", "generate", "iota", "swap"):
                j = {"copy": 2, "transform": 2 if len(args) == 4 else 3}.get(nm.split("<")[0], 0)
                if len(args) > j:
                    hit(A.al(inst, args[j], st), "writes its elements with std::" + nm)
        return st

    for _ in range(30):
        ch = False
        for u in order:
            s = frozenset() if u == G.entry.i else None
            for pr, c in G.nodes[u].pred:
                if pr in OUT:
                    e = edge(OUT[pr], c)
                    s = e if s is None else join(s, e)
            if s is None:
                continue
            o = step(G.nodes[u], s, None)
            if OUT.get(u) != o:
                OUT[u] = o
                ch = True
        if not ch:
            break
    sites[0] = 0
    for u in order:
        s = frozenset() if u == G.entry.i else None
        for pr, c in G.nodes[u].pred:
            if pr in OUT:
                e = edge(OUT[pr], c)
                s = e if s is None else join(s, e)
        if s is not None:
            step(G.nodes[u], s, report)
    ex = [nd.i for nd in G.nodes if nd.kind == "exit" and nd.inst is G.root] or [G.exit.i]
    kept = set()
    for u in ex:
        for (p, s, tags) in OUT.get(u, ()):
            q = p
            while isinstance(q, tuple) and q and q[0] in ("idx", "M") and q[1] != ("this",):
                q = q[1]
            if q[:2] == ("M", ("this",)) or q[:1] == ("L",) and A.static(q):
                kept.add((p, A.src[s]["name"]))
    return sites[0], kept


def strip_t(inst, nid):
    n = inst.fn.nodes[nid]
    while (n["k"] in CASTS or n["k"] in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr")) and n.get("ch") and not n.get("t", "").startswith("cv::"):
        n = inst.fn.nodes[n["ch"][0]]
    return n.get("t", "")


def pixelref(inst, nid):
    """does the expression designate an element of a matrix (not a matrix header)"""
    n = inst.fn.nodes[nid]
    while n["k"] in CASTS or n["k"] == "ParenExpr":
        nid = n["ch"][0]
        n = inst.fn.nodes[nid]
    k = n["k"]
    if matlike(n.get("t", "")) or "vector" in n.get("t", ""):
        return False
    if k == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] == "at":
        return True
    if k == "CXXOperatorCallExpr" and n.get("op") in ("()", "[]", "*"):
        return True
    if k == "ArraySubscriptExpr" or k == "UnaryOperator" and n.get("op") == "*":
        return True
    return False


def dest(inst, nid):
    n = inst.fn.nodes[nid]
    while n["k"] in CASTS or n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
        if not n.get("ch"):
            return None
        nid = n["ch"][0]
        n = inst.fn.nodes[nid]
    p = path(inst, nid)
    return p if p[0] in ("L", "M", "P") else None


CHANNELS_CHANGE = {0, 1, 2, 3, 6, 7, 8, 9, 10, 11}   # conversion codes whose result has another number of channels


def realloc(A, nm, inst, n, a, args, als, st, facts):
    """operation from a matrix onto (a header of) itself that never changes its elements: the result has another type or size, hence
    new memory, or else the same elements"""
    obj = None
    if n["k"] == "CXXMemberCallExpr":
        m = inst.fn.nodes[n["ch"][0]]
        obj = m["ch"][0] if m["k"] == "MemberExpr" and m.get("ch") else None
    if nm in ("convertTo", "copyTo") and obj is not None:
        real = [x for x in args if inst.fn.nodes[x]["k"] != "CXXDefaultArgExpr"]
        if nm == "convertTo" and len(args) > 1:
            d, t = dest(inst, a), val(inst, args[1])
            if d and t[0] == "c" and any(f[0] == "!=" and t in f[1:] and any(isinstance(x, tuple) and x[:1] == ("call",) and last(x[1]) in ("depth", "type") and x[2] in (d, val(inst, a)) for x in f[1:]) for f in facts):
                return True
        return als <= A.al(inst, obj, st) and len(real) <= (2 if nm == "convertTo" else 1)
    if nm in ("cvtColor", "resize") and args and als <= A.al(inst, args[0], st):
        if nm == "resize":
            return True
        c = val(inst, args[2]) if len(args) > 2 else None
        return c is not None and c[0] == "c" and c[1] in CHANNELS_CHANGE
    return False


KEEPERS = {("LBSP", "m_oRefImage")}   # documented to hold the reference image of its caller


def a01(P, ctx):
    seen = set()
    for fn in P.all():
        if fn.fk in seen or not fn.params or fn.kind == "lambda" or not any(ro_param(p["t"]) for p in fn.params) or "/modules/" not in fn.file:
            continue
        seen.add(fn.fk)
        bad = []
        r = analyse(P, fn, lambda nd, prm, how: bad.append((nd, prm, how)))
        if r is None:
            continue
        for nd, prm, how in bad:
            ctx.bad("read-only", nd.inst.where(nd.ref), "%s %s although the matrix may share the memory of the read-only argument '%s'" % (fn.fn, how, prm), key="read-only|%s|%s" % (fn.fn, prm))
        if not bad:
            ctx.ok("read-only", fn.where(), "%s (%d writes)" % (fn.fn, r[0]))
        # a lent image that stays in the object is not written by the other methods
        for p, s in sorted(r[1], key=repr):
            q = p
            while q[:2] != ("M", ("this",)) and q[0] != "L":
                q = q[1]
            if q[0] == "L":
                ctx.bad("kept", fn.where(), "%s keeps the memory of '%s' in its static variable '%s' after returning" % (fn.fn, s, q[3]), key="kept|%s|%s" % (fn.fn, q[3]))
                continue
            hits = []
            recs = [fn.rec] + sorted(P.derived(fn.rec))
            for rec in recs:
                for m in P.methods_of(rec):
                    if m.kind == "lambda" or not any(x and x["k"] == "MemberExpr" and x.get("n") == q[2] for x in m.nodes):
                        continue
                    analyse(P, m, lambda nd, prm, how: hits.append((nd, m, how)), fields=[q])
            if hits:
                nd, m, how = hits[0]
                ctx.bad("kept", nd.inst.where(nd.ref), "%s %s although '%s' may still share the memory of the image given to %s" % (m.fn, how, q[2], fn.fn), key="kept|%s|%s" % (fn.fn, q[2]))
            elif (fn.rec, q[2]) in KEEPERS:
                ctx.ok("kept", fn.where(), "%s only read by %s" % (q[2], fn.rec))
            else:
                ctx.bad("kept", fn.where(), "%s keeps the memory of '%s' in '%s' after returning: it changes whenever the caller reuses its buffer" % (fn.fn, s, q[2]), key="kept|%s|%s" % (fn.fn, q[2]))
