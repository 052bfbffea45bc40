"""V05: foreground masks hold only 0 and 255 and are completely assigned by every call."""
from .flow import *
from .ratexp import *
from . import metrics as M
from . import video as V
from .units import key_of, strip_ref

GOOD, UNK, BAD = 0, 1, 2
KEEP = {"erode": 1, "dilate": 1, "medianBlur": 1, "morphologyEx": 1, "bitwise_not": 1, "bitwise_and": 2, "bitwise_or": 2, "bitwise_xor": 2, "absdiff": 2,
        "flip": 1, "transpose": 1, "min": 2, "max": 2, "copyMakeBorder": 1}
CMPS = ("op==", "op!=", "op<", "op>", "op<=", "op>=")


def scalar_vals(t, d=0):
    """constants of a Scalar value tuple, or None"""
    if d > 6:
        return None
    if t[0] == "c":
        return [t[1]] if isinstance(t[1], (int, float)) else None
    if t[0] == "new":
        out = []
        for x in t[2]:
            if x == ("?",):
                continue
            v = scalar_vals(x, d + 1)
            if v is None:
                return None
            out += v
        return out or [0]
    if t[0] == "call" and last(t[1]) == "all" and len(t) > 2:
        return scalar_vals(t[-1], d + 1)
    if t[0] == "call" and len(t) == 3 and last(t[1]).startswith("operator"):
        return scalar_vals(t[2], d + 1)
    return None


def elem_of(p):
    """matrix whose element the (path of an) lvalue denotes"""
    if p[0] == "idx" and p[1][0] == "M" and p[1][2] == "data":
        return p[1][1]
    if p[0] == "idx" or p[0] == "*":
        q = p[1]
        for _ in range(6):
            if q[0] == "M" and q[2] == "data":
                return q[1]
            if q[0] in ("b+", "b-"):
                q = next((x for x in q[1:] if has_data(x)), ("?",))
            elif q[0] == "call" and last(q[1]).split("<")[0] == "ptr" and len(q) > 2:
                return q[2]
            else:
                return None
        return None
    if p[0] == "call" and last(p[1]).split("<")[0] == "at" and "cv::Mat" in p[1] and len(p) > 2:
        return p[2]
    if p[0] == "op()" and len(p) >= 3:
        return p[1]
    return None


def has_data(t):
    return isinstance(t, tuple) and any(l[0] == "M" and l[2] == "data" for l in leaves(t))


class Masks:
    def __init__(self, graphs):
        self.writes = {}     # key -> [(where, what, fn evaluating to (status, dependencies))]
        self.graphs = graphs
        self.why = {}
        self.sites, self.cur = [], None
        for G in graphs:
            self.scan(G)
        self.solve()

    def add(self, key, inst, nid, what, st, deps, whole=False):
        if key is None:
            return
        if self.cur is not None:
            self.sites.append((self.cur, key, st, deps, whole))
        self.writes.setdefault(key, []).append((inst.where(nid), what, st, deps, self.cur, whole))

    def overwritten(self, key, site):
        """is a bad intermediate content always replaced as a whole before anything else uses the matrix"""
        if site is None:
            return False
        G, u = site
        good = {x[0][1] for x in self.sites if x[0] is not None and x[0][0] is G and x[1] == key and x[4] and x[2] == GOOD and key not in x[3]}
        todo, seen = [v for v, _ in G.nodes[u].succ], set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            nd = G.nodes[v]
            if v in good:
                continue
            if not nd.succ:
                return False
            if nd.kind == "stmt" and self.mentions(nd, key, good, G):
                return False
            todo += [w for w, _ in nd.succ]
        return True

    def mentions(self, nd, key, good, G):
        n = nd.n()
        if n["k"] not in ("MemberExpr", "DeclRefExpr") or "Mat" not in n.get("t", "") or key_of(path(nd.inst, nd.ref)) != key:
            return False
        fn, i = nd.inst.fn, nd.ref     # an operand of the overwriting operation itself
        par = fn.parents()
        while i in par:
            i = par[i]
            u = G._nid.get((nd.inst.id, i)) if hasattr(G, "_nid") else None
            if u in good:
                return False
        return True

    # -- values
    def value(self, inst, nid, d=0):
        """(status, matrices it is read from) of an element value"""
        n = inst.fn.nodes[nid]
        k = n["k"]
        if d > 25:
            return UNK, set()
        if "c" in n and isinstance(n["c"], int):
            return (GOOD if n["c"] in (0, 255) or n["c"] == -1 and "char" in n.get("t", "") else BAD), set()
        if k in CASTS | {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"} and n.get("ch"):
            t = inst.fn.nodes[n["ch"][0]].get("t", "")
            if t.replace("const ", "").strip() == "bool":
                return BAD, set()
            return self.value(inst, n["ch"][0], d + 1)
        if k == "ConditionalOperator":
            a, b = self.value(inst, n["ch"][1], d + 1), self.value(inst, n["ch"][2], d + 1)
            return max(a[0], b[0]), a[1] | b[1]
        if k == "BinaryOperator" and n["op"] in ("&", "|", "^"):
            a, b = self.value(inst, n["ch"][0], d + 1), self.value(inst, n["ch"][1], d + 1)
            return max(a[0], b[0]), a[1] | b[1]
        if k == "BinaryOperator" and n["op"] == "*":
            for x, y in (n["ch"], n["ch"][::-1]):
                nx, ny = inst.fn.nodes[M.strip(inst.fn, x)], inst.fn.nodes[y]
                if is_bool(inst, x) and ny.get("c") == 255:
                    return GOOD, set()
            return BAD, set()
        if k == "BinaryOperator" and n["op"] in ("=",):
            return self.value(inst, n["ch"][1], d + 1)
        if k in ("BinaryOperator",) and n["op"] in ("+", "-", "/", "%", "<<", ">>", "<", ">", "==", "!=", "<=", ">=", "&&", "||"):
            return BAD, set()
        if k == "UnaryOperator" and n["op"] == "~":
            return self.value(inst, n["ch"][0], d + 1)
        if k == "UnaryOperator" and n["op"] == "!":
            return BAD, set()
        m = elem_of(path(inst, nid))
        if m is not None:
            key = key_of(m)
            return (GOOD, {key}) if key is not None else (UNK, set())
        if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
            owner, info = inst.find_decl(n["d"])
            if owner is not None and n["d"] in owner.bind and owner.bind[n["d"]]:
                ci, cn, _ = owner.bind[n["d"]]
                if n["d"] not in mutated(owner.fn):
                    return self.value(ci, cn, d + 1)
                return UNK, set()
            if info is not None:
                st, deps = (self.value(owner, info["init"], d + 1) if info.get("init", -1) >= 0 else (GOOD, set()))
                for j, x in enumerate(owner.fn.nodes):
                    if x and x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x.get("op") in ASSIGN:
                        l = owner.fn.nodes[M.strip(owner.fn, x["ch"][0])]
                        if l["k"] == "DeclRefExpr" and l.get("d") == n["d"]:
                            if x["op"] not in ("=", "|=", "&=", "^="):
                                return BAD, deps
                            s2, d2 = self.value(owner, x["ch"][1], d + 1)
                            st, deps = max(st, s2), deps | d2
                return st, deps
        if k in CALLS:
            if nid in inst.calls:
                ci = inst.calls[nid]
                st, deps = GOOD, set()
                for rn in ci.rets:
                    if rn.n().get("ch"):
                        s2, d2 = self.value(ci, rn.n()["ch"][0], d + 1)
                        st, deps = max(st, s2), deps | d2
                return st, deps
            if last(n.get("fn", "")).split("<")[0] in ("saturate_cast", "max", "min"):
                _, a = callee_args(n)
                st, deps = GOOD, set()
                for x in a:
                    s2, d2 = self.value(inst, x, d + 1)
                    st, deps = max(st, s2), deps | d2
                return st, deps
        return UNK, set()

    def matexpr(self, t, d=0):
        """status of a matrix valued tuple"""
        if d > 12:
            return UNK, set()
        if t[0] in CMPS:
            return GOOD, set()
        if t[0] in ("op&", "op|", "op^"):
            st, deps = GOOD, set()
            for x in t[1:]:
                v = scalar_vals(x)
                s2, d2 = (GOOD if all(y in (0, 255) for y in v) else BAD, set()) if v is not None else self.matexpr(x, d + 1)
                st, deps = max(st, s2), deps | d2
            return st, deps
        if t[0] == "op~":
            return self.matexpr(t[1], d + 1)
        if t[0] in ("op*", "op/", "op+", "op-"):
            if t[0] == "op-" and t[1] == ("c", 255):
                return self.matexpr(t[2], d + 1)
            return BAD, set()
        if t[0] == "call":
            nm = last(t[1])
            if nm == "clone" and len(t) > 2:
                return self.matexpr(t[2], d + 1)
            if nm == "zeros":
                return GOOD, set()
            if nm == "ones":
                return BAD, set()
            if nm in ("getMat", "getMatRef"):
                return None
            return UNK, set()
        if t[0] == "new" and "Mat" in str(t[1]):
            a = [x for x in t[2] if x != ("?",)]
            if len(a) == 1:
                return self.matexpr(a[0], d + 1)
            if a and scalar_vals(a[-1]) is not None and a[-1][0] in ("new", "call"):
                return (GOOD if all(x in (0, 255) for x in scalar_vals(a[-1])) else BAD), set()
            return None
        k = key_of(t)
        if k is not None:
            return GOOD, {k}
        return UNK, set()

    def scan(self, G):
        G._nid = {(nd.inst.id, nd.ref): nd.i for nd in G.stmts()}
        for nd in G.stmts():
            n, inst = nd.n(), nd.inst
            k = n["k"]
            self.cur = (G, nd.i)
            if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
                m = elem_of(path(inst, n["ch"][0])) or elem_of(val(inst, n["ch"][0]))
                if m is not None:
                    if n["op"] in ("=", "|=", "&=", "^="):
                        st, deps = self.value(inst, n["ch"][1])
                    else:
                        st, deps = BAD, set()
                    self.add(key_of(m), inst, nd.ref, "element assignment", st, deps)
            elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
                m = elem_of(path(inst, n["ch"][0]))
                if m is not None:
                    self.add(key_of(m), inst, nd.ref, "element increment", BAD, set())
            elif k == "CXXOperatorCallExpr" and n.get("op") in ASSIGN and len(n["ch"]) > 2 and "Mat" in inst.fn.nodes[n["ch"][1]].get("t", ""):
                p = path(inst, n["ch"][1])
                v = val(inst, n["ch"][2])
                key = self.dest(p)
                sv = scalar_vals(v) if "Scalar" in inst.fn.nodes[n["ch"][2]].get("t", "") or v[0] == "c" else None
                if n["op"] == "=":
                    r = ((GOOD if all(x in (0, 255) for x in sv) else BAD), set()) if sv is not None else self.matexpr(v)
                elif n["op"] in ("|=", "&=", "^="):
                    r = self.matexpr(v)
                else:
                    r = BAD, set()
                if r is not None:
                    self.add(key, inst, nd.ref, "assignment", *r)
            elif k in CALLS and nd.ref not in inst.calls:
                self.call(inst, nd.ref, n)
        self.cur = None
        for inst in G.insts:
            for d in inst.decl.values():
                if d.get("init", -1) >= 0 and "cv::Mat" in d.get("t", "") and not d.get("ref") and "vector" not in d["t"]:
                    r = self.matexpr(val(inst, d["init"]))
                    if r is not None:
                        self.add(("L", inst.id, d["id"], d["name"]), inst, d["init"], "initialisation", *r)

    def dest(self, p):
        if p[0] == "op()" or p[0] == "call" and last(p[1]) in ("row", "col", "rowRange", "colRange", "reshape"):
            p = p[1] if p[0] == "op()" else p[2]
        return key_of(p)

    def call(self, inst, nid, n):
        nm = last(n.get("fn", "")).split("<")[0]
        q = n.get("fn", "")
        obj, args = callee_args(n)
        t = val(inst, nid)
        if nm == "memset" and len(args) == 3:
            p = val(inst, args[0])
            if p[0] == "M" and p[2] == "data":
                v = val(inst, args[1])
                self.add(key_of(p[1]), inst, nid, "memset", (GOOD if v in (("c", 0), ("c", 255), ("c", -1)) else BAD if v[0] == "c" else UNK), set())
            return
        if not q.startswith("cv::"):
            return
        if n["k"] == "CXXMemberCallExpr":
            o = t[2] if len(t) > 2 and t[0] == "call" else None
            if nm == "setTo" and args and o is not None:
                v = strip_in(val(inst, args[0]))
                sv = scalar_vals(v)
                self.add(self.dest(o), inst, nid, "setTo", UNK if sv is None else GOOD if all(x in (0, 255) for x in sv) else BAD, set())
            elif nm == "copyTo" and args and o is not None:
                r = self.matexpr(o) or (UNK, set())
                self.add(self.dest(strip_in(path(inst, args[0]))), inst, nid, "copyTo", *r)
            elif nm == "convertTo" and args:
                self.add(self.dest(strip_in(path(inst, args[0]))), inst, nid, "convertTo", BAD, set())
            return
        pt = n.get("pt", [])
        for i, a in enumerate(args):
            if i >= len(pt) or "OutputArray" not in pt[i] or "ArrayOfArrays" in pt[i]:
                continue
            p = strip_in(path(inst, a))
            key = self.dest(p)
            if key is None:
                continue
            st, deps = BAD, set()
            if nm in KEEP:
                st = GOOD
                for x in args[:KEEP[nm]]:
                    s2, d2 = self.matexpr(strip_in(val(inst, x))) or (UNK, set())
                    v = scalar_vals(strip_in(val(inst, x)))
                    if v is not None:
                        s2, d2 = (GOOD if all(y in (0, 255) for y in v) else BAD), set()
                    st, deps = max(st, s2), deps | d2
            elif nm in ("compare", "inRange"):
                st = GOOD
            elif nm == "threshold" and len(args) >= 5:
                st = GOOD if val(inst, args[3])[1:2] in ((255,), ("255",), (255.0,)) and val(inst, args[4]) in (("c", 0), ("c", 1), ("c", 8), ("c", 9)) else BAD
            elif nm == "floodFill":
                nv = [x for x, ty in zip(args, pt) if "Scalar" in ty]
                sv = scalar_vals(val(inst, nv[0])) if nv else None
                st, deps = (UNK if sv is None else GOOD if all(x in (0, 255) for x in sv) else BAD), {key}
            elif nm == "resize":
                v = [val(inst, x) for x in args]
                st, deps = (GOOD, self.matexpr(strip_in(v[0]))[1]) if v[-1] == ("c", 0) else (BAD, set())
            elif nm in ("imshow", "imwrite", "swap"):
                continue
            self.add(key, inst, nid, "cv::" + nm, st, deps, p[0] != "op()" and "InputOutput" not in pt[i])

    def solve(self):
        self.st = {k: GOOD for k in self.writes}
        ch = True
        while ch:
            ch = False
            for k, ws in self.writes.items():
                s = max([w[2] for w in ws if w[2] != BAD or not self.overwritten(k, w[4])] + [GOOD] + [self.st.get(d, UNK) for w in ws for d in w[3]])
                if s > self.st[k]:
                    self.st[k] = s
                    ch = True


def strip_in(t):
    while t[0] == "new" and len(t[2]) >= 1 and ("InputArray" in str(t[1]) or "OutputArray" in str(t[1]) or "InputOutputArray" in str(t[1])):
        t = t[2][0]
    return t


def is_bool(inst, nid):
    while True:
        n = inst.fn.nodes[nid]
        if n.get("t", "").replace("const ", "").strip() == "bool":
            return True
        if n["k"] in CASTS | {"ParenExpr"} and n.get("ch"):
            nid = n["ch"][0]
            continue
        return False


def v05(P, ctx):
    for rec in V.leaf_classes(P):
        if "GLSL" in rec:
            continue
        fns = []
        for nm in ("initialize", "apply", "refreshModel"):
            for r in [rec] + list(P.bases(rec)):
                c = [f for f in P.methods_of(r) if last(f.fn) == nm and f.cfg and not (nm == "apply" and not any("InputArray" in p["t"] for p in f.params))]
                if c:
                    fns += c
                    break
        graphs = {f: V.bgraph(P, f, rec) for f in fns}
        mk = Masks(list(graphs.values()))
        short = rec.split("<")[0].rstrip("_")
        for f, G in graphs.items():
            if last(f.fn) != "apply":
                continue
            mats = V.matvars(G)
            ins = {key_of(x) for m, (k, a) in mats.items() if k == "in" for x in V.aliases(G, {m: 1})[m]}
            outs = [m for m, (k, a) in mats.items() if k == "out"]
            for o in outs:
                key = key_of(o)
                # closure of the masks this one is computed from
                todo, clo = [key], set()
                while todo:
                    k = todo.pop()
                    if k in clo:
                        continue
                    clo.add(k)
                    for w in mk.writes.get(k, []):
                        todo += [d for d in w[3] if d not in clo]
                for k in sorted(clo, key=str):
                    nm = k[1] if k[0] == "F" else k[3]
                    for where, what, st, deps, site, whole in mk.writes.get(k, []):
                        if st == BAD and mk.overwritten(k, site):
                            continue
                        if st == BAD:
                            ctx.bad("binary", where, "%s: %s can put values other than 0 and 255 into '%s', from which the returned foreground mask is computed" % (short, what, nm), key="binary|%s|%s|%s|%s" % (rec, nm, what, where.split(" <- ")[0]))
                        elif st == UNK:
                            ctx.stats["unresolved"] = ctx.stats.get("unresolved", 0) + 1
                        else:
                            ctx.ok("binary", where, "%s: %s of %s" % (short, what, nm))
                    if k in ins:
                        for k2 in clo:
                            for w in mk.writes.get(k2, []):
                                if k in w[3]:
                                    ctx.bad("binary", w[0], "%s: %s copies values of the caller's image into '%s', from which the returned foreground mask is computed" % (short, w[1], k2[1] if k2[0] == "F" else k2[3]), key="binary|%s|%s|in" % (rec, w[0].split(" <- ")[0]))
                    if k not in mk.writes and k[0] == "F":
                        ctx.notes.append("%s: no write of '%s' seen" % (short, nm))
                filled(ctx, P, rec, f, G, o, mats[o][1], short)


def default_arg(fn, nid):
    """an argument left to its default (or noArray())"""
    n = fn.nodes[nid]
    while n and n.get("ch") and n["k"] not in CALLS and len(n["ch"]) == 1:
        n = fn.nodes[n["ch"][0]]
    return not n or n["k"] == "CXXDefaultArgExpr" or n["k"] in CALLS and last(n.get("fn", "")) == "noArray"


def full_loops(G, nd):
    """innermost whole-image loop of an element write: (inst, loop) or None"""
    inst, ref = nd.inst, nd.ref
    loops = []
    while inst is not None:
        for l in M.enclosing_loops(inst.fn, ref):
            loops.append((inst, l))
        ref, inst = inst.callnid, inst.caller
    def kind(li):
        r = M.loop_range(li[0].fn, li[1])
        if not r or r[1] != 0 or r[4] != 1 or r[3] not in ("<", "!="):
            return None
        b = val(li[0], r[2])
        s = repr(b)
        if b[0] == "M" and b[2] in ("height", "rows"):
            return "y"
        if b[0] == "M" and b[2] in ("width", "cols"):
            return "x"
        if b[0] == "M" and b[2] == "m_nTotPxCount" or b[0] == "call" and last(b[1]) in ("total", "area"):
            return "all"
        return None
    ks = [(kind(l), l) for l in loops]
    for k, l in ks:
        if k == "all":
            return l
    names = [k for k, _ in ks]
    if "x" in names and "y" in names:
        return next(l for k, l in ks if k in ("x", "y"))
    return None


def filled(ctx, P, rec, f, G, o, arr, short):
    """every pixel of the output mask is assigned before the mask is read as a whole and before apply returns"""
    key = key_of(o)
    same = set(x for s in [V.aliases(G, {o: 1})[o]] for x in s)
    gen, reads, kill = set(), {}, set()
    elems = []
    for nd in G.stmts():
        n, inst = nd.n(), nd.inst
        k = n["k"]
        if k == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2:
            p = path(inst, n["ch"][1])
            v = val(inst, n["ch"][2])
            if p in same and ("Scalar" in inst.fn.nodes[n["ch"][2]].get("t", "")):
                gen.add(nd.i)
            if p in same and v[0] == "call" and last(v[1]) in ("getMat", "getMatRef"):
                kill.add(nd.i)
            continue
        if k in ("BinaryOperator",) and n.get("op") == "=":
            m = elem_of(path(inst, n["ch"][0])) or elem_of(val(inst, n["ch"][0]))
            if m in same:
                elems.append(nd)
            continue
        if k not in CALLS or nd.ref in inst.calls:
            continue
        nm = last(n.get("fn", "")).split("<")[0]
        obj, args = callee_args(n)
        t = val(inst, nd.ref)
        if nm == "create" and len(t) > 2 and strip_in(t[2]) == arr:
            kill.add(nd.i)
        elif nm == "memset" and len(args) == 3 and val(inst, args[0])[0] == "M" and val(inst, args[0])[1] in same:
            if covers(val(inst, args[2]), same, rat(inst, args[2])):
                gen.add(nd.i)
        elif n["k"] == "CXXMemberCallExpr" and nm in ("copyTo", "setTo", "convertTo"):
            ob = t[2] if len(t) > 2 else None
            masked = len(args) > 1 and not default_arg(inst.fn, args[1])
            if nm == "setTo" and ob in same and not masked:
                gen.add(nd.i)
            elif nm != "setTo" and args:
                d = strip_in(path(inst, args[0]))
                if d in same and not masked:
                    gen.add(nd.i)
                if ob in same:
                    reads[nd.i] = nd
        elif nm not in ("memset", "memcpy") and not n.get("fn", "").startswith("cv::") and any(handed(val(inst, a), same) for a in args):
            gen.add(nd.i)        # some other function that writes through a pointer or iterator: assumed to fill the mask
        elif n.get("fn", "").startswith("cv::") and n["k"] == "CallExpr":
            pt = n.get("pt", [])
            ps = [strip_in(path(inst, a)) for a in args]
            for p, ty in zip(ps, pt):
                if p in same and "InputArray" in ty and "Output" not in ty:
                    reads[nd.i] = nd
            for p, ty in zip(ps, pt):
                if p in same and "OutputArray" in ty and "InputOutput" not in ty:
                    gen.add(nd.i)
    # element writes on every path of a whole-image loop
    byloop = {}
    for nd in elems:
        l = full_loops(G, nd)
        if l:
            byloop.setdefault((l[0].id, l[1]), (l, []))[1].append(nd)
    for (iid, lid), (l, nds) in byloop.items():
        r = M.once_per_iteration(G, l[0], l[1], {x.i for x in nds})
        if r != "not at all":
            for nd in G.nodes:       # the loop's exit: every node after the loop is reached through its condition
                if nd.inst is l[0] and nd.kind == "stmt" and nd.ref == l[0].fn.nodes[l[1]]["parts"].get("cond"):
                    gen.add(nd.i)
            par = l[0].fn.parents()
            outer = [x for x in M.enclosing_loops(l[0].fn, l[1])]
            for x in outer:
                for nd in G.nodes:
                    if nd.inst is l[0] and nd.kind == "stmt" and nd.ref == l[0].fn.nodes[x]["parts"].get("cond"):
                        gen.add(nd.i)
    IN, OUT = {}, {}
    order = G.rpo()
    entry = order[0]
    ch = True
    while ch:
        ch = False
        for u in order:
            ps = [OUT[v] for v in pred_ids(G, u) if v in OUT]
            i = False if u == entry else (all(ps) if ps else None)
            if i is None:
                continue
            o2 = (i or u in gen) and u not in kill
            if u in gen and u in kill:
                o2 = False
            if IN.get(u) != i or OUT.get(u) != o2:
                IN[u], OUT[u] = i, o2
                ch = True
    ex = [nd for nd in G.nodes if nd.kind == "exit" and nd.inst is G.root and nd.i in IN]
    badr = [nd for i, nd in reads.items() if i in IN and not IN[i]]
    if badr:
        ctx.bad("filled", badr[0].inst.where(badr[0].ref), "%s::apply uses its foreground mask before every pixel of it was assigned in this call" % short, key="filled|%s|read" % rec)
    elif any(not IN[e.i] for e in ex):
        ctx.bad("filled", G.root.where(), "%s::apply can return a foreground mask of which not every pixel was assigned in this call" % short, key="filled|%s|exit" % rec)
    else:
        ctx.ok("filled", G.root.where(), "%s: mask assigned as a whole before use and at return" % short)


def handed(t, same):
    """a pointer or iterator into one of the matrices"""
    if t[0] == "M" and t[2] == "data":
        return t[1] in same
    if t[0] in ("b+", "b-"):
        return any(handed(x, same) for x in t[1:] if isinstance(x, tuple))
    return t[0] == "call" and last(t[1]).split("<")[0] in ("begin", "ptr") and len(t) > 2 and t[2] in same


def pred_ids(G, u):
    if not hasattr(G, "_preds"):
        G._preds = {}
        for nd in G.nodes:
            for v, c in nd.succ:
                G._preds.setdefault(v, []).append(nd.i)
    return G._preds.get(u, [])


def covers(t, same, r):
    """does a byte count cover an 8-bit single channel mask"""
    from .sampling import const_of
    if const_of(r) is not None:
        return False
    ms = list(r.n.items())
    if len(ms) != 1 or r.d != ONE or ms[0][1] < 1:
        return False
    ls = ms[0][0]
    names = sorted((l[2] if l[0] == "M" else last(l[1]) if l[0] == "call" else "?") for l in ls)
    if len(ls) == 1:
        return names[0] in ("total", "area", "m_nTotPxCount")
    if len(ls) == 2:
        return names in (["cols", "rows"], ["height", "width"], ["cols", "height"], ["rows", "width"], ["elemSize", "total"], ["rows", "step"])
    return False
