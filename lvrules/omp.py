"""C06: loops run in parallel only write storage that is private to the iteration (or protected)."""
from .flow import *
from .program import rel
from .ratexp import rat, Rat, padd, ONE
from .sampling import const_of

ACCESS = {"at", "ptr", "data", "begin", "operator[]", "operator()", "row", "col", "get", "getMat", "rowRange", "colRange"}
OUTT = ("OutputArray", "InputOutputArray")
# standard algorithms: positions of the iterators they write through
STDOUT = {"copy": (2,), "copy_n": (2,), "copy_if": (2,), "copy_backward": (2,), "move_backward": (2,), "partial_sum": (2,), "adjacent_difference": (2,), "inclusive_scan": (2,), "exclusive_scan": (2,),
          "unique_copy": (2,), "reverse_copy": (2,), "remove_copy": (2,), "remove_copy_if": (2,), "replace_copy": (2,), "rotate_copy": (3,), "merge": (4,), "set_union": (4,), "set_intersection": (4,), "set_difference": (4,),
          "swap_ranges": (0, 2), "partial_sort_copy": (2,), "uninitialized_copy": (2,), "uninitialized_copy_n": (2,)}
STDOUT.update({x: (0,) for x in ("fill", "fill_n", "iota", "generate", "generate_n", "sort", "stable_sort", "partial_sort", "nth_element", "reverse", "rotate", "replace", "replace_if", "shuffle", "random_shuffle", "unique", "remove",
                                 "remove_if", "partition", "stable_partition", "inplace_merge", "make_heap", "push_heap", "pop_heap", "sort_heap", "next_permutation", "prev_permutation", "uninitialized_fill", "uninitialized_fill_n", "iter_swap")})


def std_outputs(n, args):
    """positions written through by a call of a standard algorithm (None: not one)"""
    f = n.get("fn", "")
    if n["k"] != "CallExpr" or not f.startswith("std::"):
        return None
    f = last(f).split("<")[0]
    if f == "transform":
        return (2,) if len(args) == 4 else (3,)
    if f == "move" and len(args) == 3:
        return (2,)
    if f in STDOUT:
        return STDOUT[f]
    if f in ("accumulate", "inner_product", "all_of", "any_of", "none_of", "count", "count_if", "find", "find_if", "max_element", "min_element", "minmax_element", "equal", "lexicographical_compare", "distance", "lower_bound", "upper_bound", "binary_search", "mismatch", "search", "is_sorted"):
        return ()
    return None


def for_parts(fn, nid):
    n = fn.nodes[nid]
    return n.get("parts", {})


def loop_var(fn, nid):
    p = for_parts(fn, nid)
    i = p.get("init", -1)
    if i is not None and i >= 0:
        n = fn.nodes[i]
        if n["k"] == "DeclStmt":
            return [d["id"] for d in n["decls"]]
        if n["k"] == "BinaryOperator" and n["op"] == "=":
            l = fn.nodes[n["ch"][0]]
            if l["k"] == "DeclRefExpr":
                return [l["d"]]
    return []


def moved(fn, d):
    """the pointer variable itself is assigned again (not only what it points to)"""
    for n in fn.nodes:
        if not n:
            continue
        t = None
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
            t = n["ch"][0]
        elif n["k"] == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--", "&"):
            t = n["ch"][0]
        while t is not None and fn.nodes[t]["k"] in CASTS and fn.nodes[t].get("ch"):
            t = fn.nodes[t]["ch"][0]
        if t is not None and fn.nodes[t]["k"] == "DeclRefExpr" and fn.nodes[t].get("d") == d:
            return True
    return False


class Region:
    def __init__(self, P, fn, nid, ctx):
        self.P, self.fn, self.nid, self.ctx = P, fn, nid, ctx
        n = fn.nodes[nid]
        self.root = Inst(fn, this=("this",))
        col = 1
        self.priv, self.red = set(), {}
        for c in n.get("clauses", []):
            if c["kind"] == "collapse":
                col = c.get("n", 1)
            elif c["kind"] in ("private", "firstprivate", "lastprivate", "linear"):
                self.priv.update(v.get("d") if isinstance(v, dict) else v for v in c.get("vars", []))
            elif c["kind"] == "reduction":
                for v in c.get("vars", []):
                    self.red[v.get("d") if isinstance(v, dict) else v] = True
        f = n["ch"][0]
        self.pvars = []
        self.names = {}
        body = f
        for _ in range(col):
            if fn.nodes[body]["k"] != "ForStmt":
                break
            self.pvars += loop_var(fn, body)
            f = body
            body = for_parts(fn, body).get("body", -1)
            b = fn.nodes[body]
            if b["k"] == "CompoundStmt" and _ + 1 < col:
                inner = [c for c in b["ch"] if c >= 0 and fn.nodes[c]["k"] == "ForStmt"]
                if inner:
                    body = inner[0]
        self.body = for_parts(fn, f).get("body", -1)
        # a parallel loop that is not collapsed: the outer variable must appear in every written location
        self.need = set(self.pvars)
        self.inside = set()
        self.collect(self.root, self.body)

    def collect(self, inst, nid):
        for i in inst.fn.walk(nid):
            n = inst.fn.nodes[i]
            if n["k"] == "DeclStmt":
                for d in n["decls"]:
                    self.inside.add((inst.id, d["id"]))

    # ---- injective dependence on the parallel loop variables
    def deps(self, inst, nid, d=0, lvl=0):
        """parallel loop variables that the expression selects by; what is looked up in a table that is itself indexed by looked-up
        values (lvl 2) does not tell iterations apart"""
        out = set()
        if nid is None or nid < 0 or d > 60 or lvl > 1:
            return out
        fn = inst.fn
        n = fn.nodes[nid]
        k = n["k"]
        if k == "DeclRefExpr" and n.get("dk") in ("local", "parm", "slocal"):
            did = n["d"]
            if did in self.need:
                return {did}
            o, info = inst.find_decl(did)
            if o is None:
                return out
            if did in o.bind and o.bind[did]:
                return self.deps(o.bind[did][0], o.bind[did][1], d + 1, lvl)
            if info is not None and info.get("init", -1) >= 0 and did not in self.inner_loop_vars(o) and (did not in mutated(o.fn) or info.get("t", "").rstrip().endswith(("*", "&", "* const")) or self.classish(info)):
                return self.deps(o, info["init"], d + 1, lvl)
            return out
        load = k == "ArraySubscriptExpr" or k == "CXXOperatorCallExpr" and n.get("op") in ("()", "[]") or k == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in ("at", "ptr")
        if k == "LambdaExpr":
            return out
        for c in n.get("ch", []):
            if c is not None and c >= 0:
                out |= self.deps(inst, c, d + 1, lvl + 1 if load else lvl)
        return out

    def classish(self, info):
        return "cv::" in info.get("t", "") or "Mat" in info.get("t", "")

    def inner_loop_vars(self, inst):
        out = set()
        for i, n in enumerate(inst.fn.nodes):
            if n and n["k"] == "ForStmt":
                out.update(loop_var(inst.fn, i))
        return out - self.need

    # ---- ownership of a written location
    def own(self, inst, nid, dep, d=0):
        """'private' or ('shared', name); dep accumulates the parallel variables that select the location"""
        if nid is None or nid < 0 or d > 40:
            return "private"
        fn = inst.fn
        n = fn.nodes[nid]
        k = n["k"]
        if k == "DeclRefExpr":
            did, dk = n["d"] if "d" in n else None, n.get("dk")
            if dk in ("global", "smember"):
                return "private" if n.get("tls") else ("shared", n.get("q", n["n"]))
            if dk not in ("local", "parm", "slocal"):
                return "private"
            if did in self.need or did in self.priv or did in self.red:
                return "private"
            o, info = inst.find_decl(did)
            if o is None:
                return "private"
            if did in o.bind and o.bind[did]:
                ci, cn, isref = o.bind[did]
                t = next((p["t"] for p in o.fn.params if p["id"] == did), "")
                if isref or "*" in t or "cv::Mat" in t:
                    return self.own(ci, cn, dep, d + 1)
                return "private"
            if info is None:
                if o is self.root:      # parameter of the enclosing function
                    return ("shared", n["n"])
                return "private"
            if info.get("tls"):
                return "private"
            if info.get("static"):
                return ("shared", n["n"])
            ins = (o.id, did) in self.inside or o is not self.root
            t = info.get("t", "")
            view = info.get("ref") or t.rstrip().endswith(("*", "* const")) or "cv::Mat" in t or t == "auto"
            if ins:
                if view and info.get("init", -1) >= 0:
                    return self.own_init(o, info["init"], dep, d + 1)
                return "private"
            if view and info.get("init", -1) >= 0 and t.rstrip().endswith(("*", "* const", "&")):
                return self.own_init(o, info["init"], dep, d + 1)
            return ("shared", n["n"])
        if k == "CXXThisExpr":
            return ("shared", "this")
        if k == "MemberExpr":
            if not n.get("ch"):
                return ("shared", "this->" + n["n"])
            b = self.own(inst, n["ch"][0], dep, d + 1)
            return b if b == "private" else ("shared", n["n"] if b[1] == "this" else b[1])
        if k == "UnaryOperator" and n["op"] in ("*", "&", "++", "--", "post++", "post--"):
            return self.own(inst, n["ch"][0], dep, d + 1)
        if k == "ArraySubscriptExpr":
            dep |= self.deps(inst, n["ch"][1])
            return self.own(inst, n["ch"][0], dep, d + 1)
        if k in CASTS and n.get("ch"):
            return self.own(inst, n["ch"][0], dep, d + 1)
        if k == "BinaryOperator" and n["op"] in ("+", "-"):
            a, b = n["ch"]
            ta = fn.nodes[a].get("t", "")
            ptr, off = (a, b) if "*" in ta or "iterator" in ta else (b, a)
            dep |= self.deps(inst, off)
            return self.own(inst, ptr, dep, d + 1)
        if k == "ConditionalOperator":
            d1, d2 = set(), set()
            r1, r2 = self.own(inst, n["ch"][1], d1, d + 1), self.own(inst, n["ch"][2], d2, d + 1)
            dep |= d1 & d2
            return r1 if r1 != "private" else r2
        if k == "CXXOperatorCallExpr":
            obj, args = callee_args(n)
            for a in args:
                dep |= self.deps(inst, a)
            if obj:
                return self.own(inst, obj[1], dep, d + 1)
            return "private"
        if k == "CXXMemberCallExpr":
            m = fn.nodes[n["ch"][0]]
            for a in n["ch"][1:]:
                dep |= self.deps(inst, a)
            if m.get("ch"):
                return self.own(inst, m["ch"][0], dep, d + 1)
            return ("shared", "this")
        if k in CTORS or k in ("CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr"):
            return self.own_init(inst, nid, dep, d + 1)
        return "private"

    def own_init(self, inst, nid, dep, d):
        """storage that a reference/pointer/matrix header initialised by nid refers to"""
        n = inst.fn.nodes[nid]
        k = n["k"]
        if k in CTORS:
            # a header over existing memory: a pointer argument; a copy: the source
            res = "private"
            for a, t in zip(n["ch"], n.get("pt", []) + [""] * 9):
                na = inst.fn.nodes[a]
                if "*" in na.get("t", "") or "*" in t:
                    r = self.own(inst, a, dep, d + 1)
                    if r != "private":
                        res = r
                elif "cv::Mat" in na.get("t", "") and (n.get("cpmv") or "cv::Mat" in t) or "iterator" in na.get("t", "").lower():
                    r = self.own(inst, a, dep, d + 1)
                    if r != "private":
                        res = r
            for a in n["ch"]:
                na = inst.fn.nodes[a]
                if "Rect" in na.get("t", "") or na.get("t", "") == "int":
                    dep |= self.deps(inst, a)
            return res
        return self.own(inst, nid, dep, d)

    # ---- position of an element: ([index, ...], pending pointer offset); None when not resolved
    def loc(self, inst, nid, d=0):
        if nid is None or nid < 0 or d > 40:
            return None
        fn = inst.fn
        n = fn.nodes[nid]
        k = n["k"]
        if k == "DeclRefExpr":
            if n.get("dk") in ("local", "parm", "slocal"):
                o, info = inst.find_decl(n["d"])
                if o is not None and n["d"] in o.bind and o.bind[n["d"]]:
                    return self.loc(o.bind[n["d"]][0], o.bind[n["d"]][1], d + 1)
                if o is not None and info is not None and info.get("init", -1) >= 0:
                    t = info.get("t", "")
                    if info.get("ref"):
                        return self.loc(o, info["init"], d + 1)
                    if "*" in t:
                        return self.loc(o, info["init"], d + 1) if not moved(o.fn, n["d"]) else None
                    if "cv::Mat" in t and (o.id, n["d"]) in self.inside:
                        return None
                    if t == "auto" or "iterator" in t.lower():
                        return None
            return [], None
        if k in ("CXXThisExpr",):
            return [], None
        if k == "MemberExpr":
            if not n.get("ch"):
                return [], None
            b = self.loc(inst, n["ch"][0], d + 1)
            if b is None:
                return None
            if n["n"] == "data":
                return (["F"], None) if b == ([], None) else None
            return b if b == ([], None) else None
        if k in CASTS and n.get("ch"):
            s = fn.nodes[n["ch"][0]]
            if "*" in n.get("t", "") and "*" in s.get("t", "") and n["t"].replace("const ", "").replace(" ", "") != s["t"].replace("const ", "").replace(" ", "").replace("[", "*"):
                if n.get("cast") not in ("NoOp", "LValueToRValue", "ArrayToPointerDecay"):
                    return None
            return self.loc(inst, n["ch"][0], d + 1)
        if k == "UnaryOperator" and n["op"] == "*":
            b = self.loc(inst, n["ch"][0], d + 1)
            return b and (b[0] + [b[1] if b[1] is not None else Rat.c(0)], None)
        if k == "UnaryOperator" and n["op"] == "&":
            b = self.loc(inst, n["ch"][0], d + 1)
            return (b[0][:-1], b[0][-1]) if b and b[0] and b[0][-1] != "F" else None
        if k == "ArraySubscriptExpr":
            b = self.loc(inst, n["ch"][0], d + 1)
            if b is None:
                return None
            i = rat(inst, n["ch"][1])
            return b[0] + [i + b[1] if b[1] is not None else i], None
        if k == "BinaryOperator" and n["op"] in ("+", "-") and "*" in n.get("t", ""):
            x, y = n["ch"]
            if "*" not in fn.nodes[x].get("t", "") and n["op"] == "+":
                x, y = y, x
            b = self.loc(inst, x, d + 1)
            if b is None:
                return None
            i = rat(inst, y)
            i = i if n["op"] == "+" else Rat.c(0) - i
            return b[0], i + b[1] if b[1] is not None else i
        nm = last(n.get("fn", "")).split("<")[0]
        if k == "CXXOperatorCallExpr" and n.get("op") in ("()", "[]") and len(n["ch"]) > 2:
            b = self.loc(inst, n["ch"][1], d + 1)
            return b and b[1] is None and (b[0] + [rat(inst, a) for a in n["ch"][2:]], None) or None
        if k == "CXXMemberCallExpr" and nm in ("at", "ptr", "row") and len(n["ch"]) > 1:
            m = fn.nodes[n["ch"][0]]
            b = self.loc(inst, m["ch"][0], d + 1) if m.get("ch") else ([], None)
            if b is None or b[1] is not None or any("Point" in fn.nodes[a].get("t", "") or "Vec" in fn.nodes[a].get("t", "") for a in n["ch"][1:]):
                return None
            return b[0] + [rat(inst, a) for a in n["ch"][1:] if fn.nodes[a]["k"] != "CXXDefaultArgExpr"], None
        if k == "CXXMemberCallExpr" and nm == "data":
            m = fn.nodes[n["ch"][0]]
            return self.loc(inst, m["ch"][0], d + 1) if m.get("ch") else ([], None)
        return None

    def coef(self, r, v):
        """coefficient of the loop variable in an index (None: not linear)"""
        if r.d != ONE:
            return None
        c = {}
        for m, f in r.n.items():
            k = sum(1 for x in m if x[0] == "L" and x[2] == v)
            if k > 1:
                return None
            if k == 1:
                mm = tuple(x for x in m if not (x[0] == "L" and x[2] == v))
                c[mm] = c.get(mm, 0) + f
            elif any(self.hidden(x, v) for x in m):
                return None
        return Rat(c)

    def hidden(self, x, v):
        return isinstance(x, tuple) and (len(x) > 2 and x[0] == "L" and x[2] == v or any(self.hidden(y, v) for y in x))

    def folds(self, comps, v):
        """the loop variable only selects through a quotient, or only through a remainder: different iterations meet"""
        txt = set()

        def ops(x, under):
            if not isinstance(x, tuple):
                return
            if len(x) > 2 and x[0] == "L" and x[2] == v:
                txt.add(under)
                return
            u = under
            if x and x[0] in ("intdiv", "b/", "b>>"):
                u = "/"
            elif x and x[0] in ("b%", "b&"):
                u = "%"
            elif x and x[0] in ("idx", "call", "op()", "M", "trunc", "*"):
                u = "?" if under != "/" and under != "%" else under
            for y in x:
                ops(y, u)
        for r in comps:
            if r != "F":
                for m in list(r.n) + list(r.d):
                    for x in m:
                        ops(x, "" if x[0] == "L" else "lin")
        return txt in ({"/"}, {"%"}) and txt or None

    def element(self, inst, nid):
        """note the access of an element of a shared object"""
        l = self.loc(inst, nid)
        if not l or l[1] is not None or not l[0] or l[0] == ["F"]:
            return None
        o = self.own(inst, nid, set())
        if o == "private":
            return None
        self.acc.setdefault(o[1], []).append((l[0], inst, nid))
        return o[1], l[0]

    def conflicts(self):
        bad = set()
        for name, comps, inst, nid in self.written:
            for v in self.need:
                f = self.folds(comps, v)
                if f and (name, "fold") not in bad:
                    bad.add((name, "fold"))
                    self.ctx.bad("parallel-write", inst.where(nid), "different iterations of the parallel loop in %s write the same element of '%s': the position only depends on the %s of the loop variable" % (self.fn.fn, name, "quotient" if "/" in f else "remainder"), key="omp-fold|%s|%s" % (self.fn.fn, name))
            for ac, ai, an in self.acc.get(name, []):
                if (name, an) in bad or len(ac) != len(comps) or (ac[0] == "F") != (comps[0] == "F"):
                    continue
                for v in self.need:
                    x, y = [r for r in comps if r != "F"], [r for r in ac if r != "F"]
                    cx, cy = [self.coef(r, v) for r in x], [self.coef(r, v) for r in y]
                    if None in cx or not any(c.n for c in cx):
                        continue
                    clash = None
                    if None in cy:
                        continue
                    if any((a - b).n for a, b in zip(cx, cy)):
                        clash = True
                    else:
                        for c, a, b in zip(cx, x, y):
                            if not c.n:
                                continue
                            dl = b - a
                            if dl.n and dl.d == ONE and self.multiple(dl, c):
                                clash = True
                    if clash:
                        bad.add((name, an))
                        self.ctx.bad("parallel-write", ai.where(an), "an iteration of the parallel loop in %s accesses an element of '%s' which another iteration writes (at %s)" % (self.fn.fn, name, inst.where(nid)), key="omp-clash|%s|%s" % (self.fn.fn, name))
                        break

    def multiple(self, dl, c):
        """every term of the difference is a multiple of the stride"""
        if len(c.n) != 1:
            return False
        (cm, cf), = c.n.items()
        for m, f in dl.n.items():
            rest = list(m)
            for x in cm:
                if x not in rest:
                    return False
                rest.remove(x)
            if (f / cf).denominator != 1:
                return False
        return True

    # ---- all writes of the region
    def run(self):
        self.acc, self.written = {}, []
        self.scan(self.root, self.body, False, 0)
        self.conflicts()
        self.sized()

    def sized(self):
        """thread-local scratch is prepared by every iteration that uses it, not only by some of them"""
        fn = self.fn
        tls = {d["id"]: d for i in fn.walk(self.body) if fn.nodes[i]["k"] == "DeclStmt" for d in fn.nodes[i]["decls"] if d.get("tls")}
        par = fn.parents()
        for did, d in tls.items():
            preps, free = [], False
            for i in fn.walk(self.body):
                n = fn.nodes[i]
                t = None
                if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("resize", "create", "assign", "reserve"):
                    m = fn.nodes[n["ch"][0]]
                    t = fn.nodes[m["ch"][0]].get("d") if m.get("ch") else None
                if t != did:
                    continue
                preps.append(i)
                cond = False
                j = i
                while j in par and j != self.body:
                    q = par[j]
                    nq = fn.nodes[q]
                    if nq["k"] in ("IfStmt", "ConditionalOperator"):
                        c = nq.get("parts", {}).get("cond", nq["ch"][0])
                        if self.deps(self.root, c):
                            cond = True
                    j = q
                free = free or not cond
            if preps and not free:
                self.ctx.bad("thread-local-prepared", fn.where(preps[0]), "%s prepares thread-local '%s' only in some iterations of the parallel loop; a thread that runs the others uses it unprepared" % (fn.fn, d["name"]), key="omp-tls-some|%s|%s" % (fn.fn, d["name"]))
            elif preps:
                self.ctx.ok("thread-local-prepared", fn.where(preps[0]), d["name"])

    def scan(self, inst, nid, prot, depth):
        fn = inst.fn
        n = fn.nodes[nid] if nid is not None and nid >= 0 else None
        if n is None:
            return
        k = n["k"]
        if n.get("omp") in ("critical", "atomic", "ordered"):
            prot = True
        if k == "LambdaExpr":
            return
        w = []
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
            w.append(n["ch"][0])
        elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
            w.append(n["ch"][0])
        elif k == "CXXOperatorCallExpr" and (n.get("op") in ASSIGN or n.get("op") in ("++", "--")) and len(n["ch"]) > 1:
            w.append(n["ch"][1])
        elif k in CALLS:
            t = self.callee(inst, nid)
            if t is not None and depth < 4:
                ni = Graph.make_inst(None, inst, nid, t[0], t[1])
                ni.reg = inst.reg
                self.collect(ni, ni.fn.body)
                self.scan(ni, ni.fn.body, prot, depth + 1)
            else:
                obj, args = callee_args(n)
                if k == "CXXMemberCallExpr" and not n.get("mconst") and last(n.get("fn", "")) not in ACCESS:
                    m = fn.nodes[n["ch"][0]]
                    if m.get("ch"):
                        w.append(m["ch"][0])
                so = std_outputs(n, args)
                if so is not None:
                    w += [args[i] for i in so if i < len(args)]
                for a, pt in zip(args, n.get("pt", [])):
                    if so is not None:
                        break
                    if pt.endswith("&") and not pt.endswith("&&") and not pt.startswith("const "):
                        w.append(a)
                    elif k not in CTORS and pt.endswith("*") and not pt.startswith("const ") and "char *" not in pt:
                        w.append(a)
                    elif any(o in pt for o in OUTT) and not "Input" in pt.replace("InputOutput", ""):
                        w.append(a)
        if k == "ArraySubscriptExpr" or k == "CXXOperatorCallExpr" and n.get("op") in ("()", "[]") or k == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] == "at" or k == "UnaryOperator" and n["op"] == "*":
            if not prot:
                self.element(inst, nid)
        if not prot:
            for x in w:
                self.judge(inst, x, nid)
                l = self.loc(inst, x)
                if l and l[1] is None and l[0] and l[0] != ["F"]:
                    o = self.own(inst, x, set())
                    if o != "private":
                        self.written.append((o[1], l[0], inst, x))
        for c in n.get("ch", []):
            if c is not None and c >= 0:
                self.scan(inst, c, prot, depth)

    def callee(self, inst, nid):
        n = inst.fn.nodes[nid]
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()":
            l = Graph._lambda_of(self, inst, n["ch"][1])
            if l:
                return l
        if n["k"] in ("CallExpr", "CXXMemberCallExpr") and n.get("fk"):
            f = self.P.get(n["fk"], inst.fn.tu)
            # helpers extracted from the loop: same file, not a library routine of its own
            if f is not None and f.file == self.fn.file and f is not self.fn:
                return f, None
        return None

    def _lambda_of(self, inst, nid, d=0):
        return Graph._lambda_of(self, inst, nid, d)

    def judge(self, inst, x, nid):
        dep = set()
        o = self.own(inst, x, dep)
        where = inst.where(nid)
        if o == "private":
            self.ctx.ok("parallel-write", where, "private to the iteration")
            return
        if self.need <= dep:
            # the selected location must differ between iterations: a plain sum of two loop variables does not
            if self.additive(inst, x):
                self.ctx.bad("parallel-write", where, "iterations of the parallel loop in %s select %s by a sum of loop variables, which different iterations share" % (self.fn.fn, o[1]), key="omp-sum|%s|%s" % (self.fn.fn, o[1]))
                return
            self.ctx.ok("parallel-write", where, "%s selected by the parallel loop variable(s)" % o[1])
            return
        self.ctx.bad("parallel-write", where, "iterations of the parallel loop in %s write the shared location '%s' concurrently (not selected by the parallel loop variable, not private, not reduced)" % (self.fn.fn, o[1]), key="omp-write|%s|%s" % (self.fn.fn, o[1]))

    def additive(self, inst, x):
        """a linear subscript built from two or more loop variables without any scaling"""
        fn = inst.fn
        n = fn.nodes[x]
        if n["k"] != "ArraySubscriptExpr":
            return False
        v = val(inst, n["ch"][1])

        def flat(v):
            if v[0] == "b+":
                return flat(v[1]) + flat(v[2])
            return [v]
        parts = flat(v)
        loops = set(self.pvars) | self.inner_loop_vars(self.root)
        lv = [p for p in parts if p[0] == "L" and p[2] in loops]
        return len(lv) >= 2 and not any(p[0] == "b*" for p in parts)

    def tls_outside(self):
        """thread-local scratch prepared outside the region by the calling thread only, then used inside"""
        fn = self.fn
        bodyset = set(fn.walk(self.nid))
        used = {}
        for i in bodyset:
            n = fn.nodes[i]
            if n["k"] == "DeclRefExpr" and n.get("tls") and (self.root.id, n["d"]) not in self.inside:
                used.setdefault(n["d"], i)
        for d, i in used.items():
            prep = None
            for j, n in enumerate(fn.nodes):
                if not n or j in bodyset:
                    continue
                if n["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and n.get("op") in ASSIGN:
                    l = n["ch"][0] if n["k"] != "CXXOperatorCallExpr" else n["ch"][1]
                    if fn.nodes[l].get("d") == d:
                        prep = j
                if n["k"] in CALLS:
                    obj, args = callee_args(n)
                    if n["k"] == "CXXMemberCallExpr" and not n.get("mconst"):
                        m = fn.nodes[n["ch"][0]]
                        if m.get("ch") and fn.nodes[m["ch"][0]].get("d") == d:
                            prep = j
                    for a, pt in zip(args, n.get("pt", [])):
                        if fn.nodes[a].get("d") == d and (pt.endswith("&") and not pt.startswith("const ") or any(o in pt for o in OUTT)):
                            prep = j
            if prep is not None:
                self.ctx.bad("thread-local-prepared", fn.where(i), "%s prepares thread-local '%s' at %s for the calling thread only, but the parallel loop reads each thread's own (unprepared) copy" % (fn.fn, fn.nodes[i]["n"], fn.where(prep)), key="omp-tls|%s|%s" % (fn.fn, fn.nodes[i]["n"]))
            else:
                self.ctx.ok("thread-local-prepared", fn.where(i), fn.nodes[i]["n"])


def c06(P, ctx):
    nreg = 0
    for f in P.all():
        for i, n in enumerate(f.nodes):
            if n and "for" in (n.get("omp") or "") and "parallel" in n["omp"] and n.get("ch"):
                nreg += 1
                R = Region(P, f, i, ctx)
                if not R.pvars:
                    ctx.notes.append("loop at %s not understood" % f.where(i))
                    continue
                ctx.ok("parallel-loop", f.where(i), "%s, %d loop variable(s)" % (f.fn, len(R.pvars)))
                R.run()
                R.tls_outside()
    ctx.stats["regions"] = nreg


# ---------------------------------------------------------------------------------------------------------------- C07
# confirmed by reading: terminal input polling and a print-once flag of a GL (single context thread) constructor
STATIC_OK = {("kbhit", "oldt"), ("kbhit", "newt"), ("GLDynamicTexture2DArray::GLDynamicTexture2DArray", "s_bAlreadyWarned")}
# process-wide configuration, set before work starts, and objects bound to the single GL context thread
GLOBAL_OK = {"g_sDatasetsRootPath", "GLShader::s_pCurrActiveShader", "lv::gl::Context::s_sLatestGLFWErrorMessage"}
import re
SYNCT = re.compile(r"std::(mutex|recursive_mutex|once_flag|atomic|condition_variable)|atomic<")


def written_decl(P, fn, did):
    """does any statement of fn (or of a lambda defined in it) write the static local"""
    fns = [fn] + [l for l in P.lam.values() if l.tu == fn.tu and l.file == fn.file and fn.line <= l.line <= fn.endline]
    for f in fns:
        if did in mutated(f) or ("cap", did) in mutated(f):
            return True
        for n in f.nodes:
            if n and n["k"] in CALLS:
                obj, args = callee_args(n)
                for a, pt in zip(args, n.get("pt", [])):
                    if f.nodes[a].get("d") == did and any(o in pt for o in OUTT):
                        return True
                if n["k"] == "CXXMemberCallExpr" and not n.get("mconst"):
                    m = f.nodes[n["ch"][0]]
                    if m.get("ch") and f.nodes[m["ch"][0]].get("d") == did:
                        return True
    return False


def c07(P, ctx):
    carry_over(P, ctx)
    accumulators(P, ctx)
    unconstructed(P, ctx)
    seen = set()
    for f in P.all():
        if not rel(f.file).startswith("modules/"):
            continue
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "DeclStmt":
                continue
            for d in n["decls"]:
                if not (d.get("static") or d.get("tls")):
                    continue
                k = (f.file, n["line"], d["name"])
                if k in seen:
                    continue
                seen.add(k)
                t = d["t"]
                if d.get("tls"):
                    ctx.ok("static-state", f.where(i), "%s is thread-local" % d["name"])
                elif (t.startswith("const ") and not t.rstrip().endswith("*")) or t.rstrip().endswith("*const") or t.rstrip().endswith("* const"):
                    ctx.ok("static-state", f.where(i), "%s is constant" % d["name"])
                elif SYNCT.search(t):
                    ctx.ok("static-state", f.where(i), "%s synchronises itself" % d["name"])
                elif (f.fn, d["name"]) in STATIC_OK:
                    ctx.ok("static-state", f.where(i), "%s: confirmed single-threaded by design" % d["name"])
                elif not written_decl(P, f, d["id"]):
                    ctx.ok("static-state", f.where(i), "%s is never written" % d["name"])
                else:
                    ctx.bad("static-state", f.where(i), "%s keeps mutable state in static '%s' shared by every thread and every object (not thread-local, not synchronised)" % (f.fn, d["name"]), key="static|%s|%s" % (f.fn, d["name"]))
    for q, g in sorted(P.globals.items()):
        if not rel(g.get("file", "")).startswith("modules/"):
            continue
        t = g.get("t", "")
        where = "%s:%s" % (rel(g["file"]), g.get("line"))
        if g.get("tls"):
            ctx.ok("global-state", where, "%s is thread-local" % q)
        elif t.startswith("const ") or g.get("const"):
            ctx.ok("global-state", where, "%s is constant" % q)
        elif SYNCT.search(t) or "Allocator" in t:
            ctx.ok("global-state", where, "%s synchronises itself or is stateless" % q)
        elif q in GLOBAL_OK:
            ctx.ok("global-state", where, "%s: confirmed process-wide setting" % q)
        else:
            w = [f for f in P.all() for n in f.nodes if n and n["k"] == "DeclRefExpr" and n.get("q") == q and n.get("d") in mutated(f)]
            if w or not w and any_write_global(P, q):
                ctx.bad("global-state", where, "library code writes global '%s' (%s) without synchronisation" % (q, t), key="global|%s" % q)
            else:
                ctx.ok("global-state", where, "%s is never written" % q)


def any_write_global(P, q):
    for f in P.all():
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            k = n["k"]
            tg = []
            if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
                tg = [n["ch"][0]]
            elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
                tg = [n["ch"][0]]
            elif k == "CXXOperatorCallExpr" and n.get("op") in ASSIGN and len(n["ch"]) > 1:
                tg = [n["ch"][1]]
            elif k == "CXXMemberCallExpr" and not n.get("mconst"):
                m = f.nodes[n["ch"][0]]
                tg = m.get("ch", [])[:1]
            elif k in CALLS:
                obj, args = callee_args(n)
                tg = [a for a, pt in zip(args, n.get("pt", [])) if (pt.endswith("&") and not pt.startswith("const ")) or any(o in pt for o in OUTT)]
            for t in tg:
                for j in f.walk(t):
                    if f.nodes[j].get("q") == q:
                        return True
    return False


# ------------------------------------------------------------------------------------------------ storage kept from one call to the next
META = {"empty", "size", "rows", "cols", "total", "type", "channels", "depth", "dims", "capacity", "max_size", "is_static", "isContinuous", "elemSize", "elemSize1", "step", "step1", "length", "flags"}
ALLOC = {"create", "resize", "reserve", "allocate"}
FULLDEF = {"clear", "assign", "setTo", "fill", "swap", "copyTo", "convertTo", "release", "reset"}


def own_refs(fn, did):
    par = fn.parents()
    for i, n in enumerate(fn.nodes):
        if n and n["k"] == "DeclRefExpr" and n.get("d") == did:
            yield i, par


def tls_use(fn, i, par):
    """what one mention of kept storage does: 'meta', 'alloc', 'def', 'part', 'read'"""
    c = i
    p = par.get(c)
    while p is not None and fn.nodes[p]["k"] in ("ParenExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXConstructExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr"):
        if fn.nodes[p]["k"] == "CXXConstructExpr":
            cn = fn.nodes[p]
            for a, t in zip(cn.get("ch", []), cn.get("pt", [])):
                if a == c and t.endswith("&") and not t.startswith("const ") and "&&" not in t:
                    if "_OutputArray" in cn.get("t", "") or "_InputOutputArray" in cn.get("t", ""):
                        return "def", p
        c, p = p, par.get(p)
    if p is None:
        return "read", i
    n = fn.nodes[p]
    k = n["k"]
    if k == "MemberExpr":
        m = last(n.get("n", "") or n.get("fn", "") or "")
        if m in META:
            return "meta", p
        if m in ALLOC:
            return "alloc", p
        if m == "setTo":
            q = par.get(p)
            call = fn.nodes[q] if q is not None else {}
            a = [x for x in call.get("ch", [])[1:] if fn.nodes[x] and not any(fn.nodes[y] and (fn.nodes[y]["k"] == "CXXDefaultArgExpr" or last(fn.nodes[y].get("fn", "")) == "noArray") for y in fn.walk(x))]
            if len(a) > 1:
                return "mask", p
            return "def", p
        if m in ("copyTo", "convertTo", "clone"):
            return "read", p
        if m in FULLDEF:
            return "def", p
        if m in ACCESS or m in ("end", "cbegin", "cend", "front", "back"):
            return "part", p
        q = par.get(p)
        if q is not None and fn.nodes[q]["k"] == "CXXMemberCallExpr":
            return ("read" if fn.nodes[q].get("mconst") else "part"), p
        return "part", p
    if k == "CXXOperatorCallExpr":
        ch = n["ch"]
        if n.get("op") == "=" and len(ch) > 1 and ch[1] == c:
            return "def", p
        if n.get("op") in ("[]", "()") and len(ch) > 1 and ch[1] == c:
            return "part", p
    if k in ("BinaryOperator",) and n.get("op") == "=" and n["ch"][0] == c:
        return "def", p
    if k == "UnaryOperator" and n.get("op") == "&":
        return "def", p       # handed out as a pointer: the reader's clearing is checked where it accumulates
    if k == "ArraySubscriptExpr":
        return "part", p
    if k in CALLS or k == "CXXConstructExpr":
        obj, args = callee_args(n)
        for a, t in zip(args, n.get("pt", [])):
            if a == c and ((t.endswith("&") and not t.startswith("const ") and "&&" not in t) or any(o in t for o in OUTT)):
                return "def", p
        return "read", p
    return "read", p


def carry_over(P, ctx):
    seen = set()
    for f in P.all():
        if not rel(f.file).startswith("modules/"):
            continue
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "DeclStmt":
                continue
            for d in n["decls"]:
                if not (d.get("static") or d.get("tls")):
                    continue
                k = (f.file, n["line"], d["name"], f.fk if d.get("init", -1) >= 0 else "")
                if k in seen:
                    continue
                seen.add(k)
                dep = first_call_only(f, d)
                if dep:
                    ctx.bad("first-call", f.where(i), "%s keeps '%s' for every later call and every other object, but initialises it from %s of the first call" % (f.fn, d["name"], dep), key="first|%s|%s" % (f.fn, d["name"]))
                elif d.get("init", -1) is not None and d.get("init", -1) >= 0:
                    ctx.ok("first-call", f.where(i), "the initialiser of %s does not depend on the call" % d["name"])
        ds = [d for n in f.nodes if n and n["k"] == "DeclStmt" for d in n["decls"] if d.get("tls")]
        if not ds:
            continue
        if not f.cfg:
            continue
        G = Graph(P, f, inline=lambda *a: False)
        for d in ds:
            scratch_of(P, ctx, G, f, d, seen)


def first_call_only(f, d):
    x = d.get("init", -1)
    if x is None or x < 0:
        return None
    dl = decls_of(f)
    stack = [x]
    for j in f.walk(x):
        m = f.nodes[j]
        if not m:
            continue
        if m["k"] == "CXXThisExpr":
            return "the object"
        if m["k"] == "DeclRefExpr" and m.get("dk") == "global" and not m.get("t", "").startswith("const ") and "c" not in m:
            return "setting '%s' as it is at the time" % m.get("n", "?")
        if m["k"] == "DeclRefExpr" and m.get("dk") == "parm" and any(p.get("id") == m["d"] for p in f.params):
            return "parameter '%s'" % m.get("n", "?")
        if m["k"] == "DeclRefExpr" and m.get("dk") == "local" and m["d"] in dl:
            o = dl[m["d"]]
            if o.get("static") or o.get("tls") or o["id"] == d["id"] or "c" in m:
                continue
            t = o.get("t", "")
            if t.startswith("const ") and o.get("init", -1) >= 0 and not first_call_only(f, o):
                continue
            return "local variable '%s'" % o["name"]
    return None


def scratch_of(P, ctx, G, f, d, seen):
    did = d["id"]
    par = f.parents()
    uses = {}
    for i, _ in own_refs(f, did):
        kd, at = tls_use(f, i, par)
        if kd != "meta":
            uses[i] = (kd, at)
    if not uses:
        return
    # graph nodes at which each use happens
    own = {}
    for nd in G.nodes:
        if nd.kind == "stmt" and nd.inst is G.root:
            own.setdefault(nd.ref, nd.i)
    at = {}
    for i, (kd, a) in uses.items():
        x = i
        best = own.get(i)
        if kd in ("def", "alloc"):      # takes effect when the call (not its operand) is evaluated
            x = a
            while x is not None and x not in own:
                x = par.get(x)
            if x is not None:
                q = par.get(x)
                if f.nodes[x]["k"] == "MemberExpr" and q is not None and q in own:
                    x = q
                best = own[x]
        if best is None:
            while x is not None and x not in own:
                x = par.get(x)
            best = own.get(x) if x is not None else None
        if best is not None:
            at.setdefault(best, []).append((kd, i))
    RANK = {"none": 0, "alloc": 1, "def": 2}
    order = G.rpo()
    inn = {order[0]: 0}
    work = list(order)
    pos = {u: k for k, u in enumerate(order)}
    decl = [u for u in order if G.nodes[u].kind == "stmt" and G.nodes[u].n()["k"] == "DeclStmt" and any(x["id"] == did for x in G.nodes[u].n()["decls"])]
    ch = True
    out = {}
    while ch:
        ch = False
        for u in order:
            ps = [max(out[p], 1 if c and same_size(f, c, did) else 0) for p, c in G.nodes[u].pred if p in out]
            v = min(ps) if ps else 0
            if u == order[0]:
                v = 0
            inn[u] = v
            o = v
            if u in decl:
                o = 0
            for kd, i in at.get(u, ()):
                if kd == "def":
                    o = 2
                elif kd == "alloc":
                    o = max(o, 1)
            if out.get(u) != o:
                out[u] = o
                ch = True
    mat = "cv::Mat" in d["t"]
    k0 = (f.file, d["name"], f.nodes[next(iter(uses))]["line"])
    bad = []
    for u, us in at.items():
        if u not in inn:
            continue
        for kd, i in us:
            if kd == "read" and inn[u] < (2 if mat else 1) and not (mat and inn[u] == 1 and elementwise(f, did, uses)):
                bad.append((i, kd, inn[u]))
            elif kd == "mask" and inn[u] < 2 and mat:
                bad.append((i, kd, inn[u]))
            elif kd == "part" and inn[u] < 1 and not sized_once(f, d):
                bad.append((i, kd, inn[u]))
    if bad:
        i, kd, st = sorted(bad)[0]
        ctx.bad("scratch", f.where(i), "%s uses '%s', which keeps what an earlier call left in it, %s" % (f.fn, d["name"], "without having given it this call's size on every path" if st == 0 else "after allocating it but without having filled it on every path"), key="scratch|%s|%s" % (f.fn, d["name"]))
    elif k0 not in seen:
        seen.add(k0)
        ctx.ok("scratch", f.where(next(iter(uses))), "%s is sized or filled again before it is used (%d uses)" % (d["name"], len(uses)))


def sized_once(f, d):
    """constructed with its (call-independent) size"""
    x = d.get("init", -1)
    if x is None or x < 0:
        return False
    return any(f.nodes[j] and f.nodes[j]["k"] in ("CXXConstructExpr", "InitListExpr") and any(f.nodes[y].get("c") != 0 for y in f.nodes[j].get("ch") or ()) for j in f.walk(x))


def same_size(f, c, did):
    """the branch taken shows that the storage already has the wanted size"""
    if c[0] != "if":
        return False
    nid, pol = c[2], c[3]
    n = f.nodes[nid]
    while n["k"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") or n["k"] == "UnaryOperator" and n.get("op") == "!":
        if n["k"] == "UnaryOperator":
            pol = not pol
        nid = n["ch"][0]
        n = f.nodes[nid]
    if n["k"] not in ("BinaryOperator", "CXXOperatorCallExpr", "CXXRewrittenBinaryOperator"):
        return False
    op = n.get("op")
    if not ((op in ("!=", "<", ">") and not pol) or (op in ("==", ">=", "<=") and pol)):
        return False
    side = [any(f.nodes[j] and f.nodes[j]["k"] == "DeclRefExpr" and f.nodes[j].get("d") == did for j in f.walk(x)) for x in n["ch"][-2:]]
    if side.count(True) != 1:
        return False
    if op in ("<", ">=") and not side[0] or op in (">", "<=") and not side[1]:
        return False
    o = n["ch"][-2:][side.index(False)]
    return "c" not in f.nodes[o]


def elementwise(f, did, uses):
    return any(k == "part" for k, _ in uses.values())


def kept_records(P):
    out = set()
    for f in P.all():
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for d in n["decls"]:
                    if d.get("tls") and rel(f.file).startswith("modules/"):
                        out.add(d["t"])
    for q, g in P.globals.items():
        if g.get("tls") and rel(g.get("file", "")).startswith("modules/"):
            out.add(g["t"])
    return {base_type(t) for t in out} - {"Mat", "Mat_", "AutoBuffer", "GpuMat", "array", "vector"}


def base_type(t):
    return t.replace("const ", "").replace("*", "").replace("&", "").strip().split("<")[0].split("::")[-1]


def field_of(f, nid, recs):
    """name of the field of a kept record an expression is (an element of)"""
    for _ in range(12):
        n = f.nodes[nid]
        k = n["k"]
        if k == "MemberExpr":
            b = n.get("ch") or []
            if b and base_type(f.nodes[b[0]].get("t", "")) in recs:
                return last(n.get("n", ""))
            if not b:
                return None
            nid = b[0]
        elif k == "CXXOperatorCallExpr" and n.get("op") in ("[]", "()", "*") and len(n["ch"]) > 1:
            nid = n["ch"][1]
        elif k in ("ArraySubscriptExpr", "UnaryOperator", "ParenExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXConstructExpr", "ExprWithCleanups") and n.get("ch"):
            nid = n["ch"][0]
        elif k == "CXXMemberCallExpr":
            nid = n["ch"][0]
        elif k == "DeclRefExpr" and decls_of(f).get(n.get("d"), {}).get("t", "").rstrip().endswith("&") and (decls_of(f)[n["d"]].get("init") or -1) >= 0:
            nid = decls_of(f)[n["d"]]["init"]
        else:
            return None
    return None


def accumulators(P, ctx):
    recs = kept_records(P)
    tops = {}
    for f in P.all():
        if rel(f.file).startswith("modules/") and f.kind != "lambda" and f.nodes:
            tops.setdefault(f.file, set()).add(f.line)
    acc, clr = {}, {}
    for f in P.all():
        if f.file not in tops or not f.nodes:
            continue
        ls = [x for x in tops[f.file] if x <= f.line]
        fam = (f.file, max(ls) if ls else f.line)
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            k = n["k"]
            tgt = None
            if (k == "CompoundAssignOperator" and n.get("op") in ("+=", "-=")) or (k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--")):
                tgt = n["ch"][0]
            if tgt is not None:
                e = f.nodes[tgt]
                while e["k"] in ("ParenExpr", "ImplicitCastExpr"):
                    tgt = e["ch"][0]
                    e = f.nodes[tgt]
                fld = None
                if e["k"] == "CallExpr":
                    a = callee_args(e)[1]
                    fld = field_of(f, a[0], recs) if a else None
                else:
                    fld = field_of(f, tgt, recs)
                if fld:
                    acc.setdefault(fam, {}).setdefault(fld, (f.where(i), n["line"]))
            if k == "CXXOperatorCallExpr" and n.get("op") == "=" or k == "BinaryOperator" and n.get("op") == "=":
                c = n["ch"][-2] if k == "BinaryOperator" else n["ch"][1]
                fld = field_of(f, c, recs)
                if fld:
                    clr.setdefault(fam, {}).setdefault(fld, n["line"])
            if k in CALLS:
                obj, args = callee_args(n)
                if k == "CXXMemberCallExpr" and last(n.get("fn", "")) in FULLDEF:
                    m = f.nodes[n["ch"][0]]
                    fld = field_of(f, m["ch"][0], recs) if m.get("ch") else None
                    if fld:
                        clr.setdefault(fam, {}).setdefault(fld, n["line"])
                if last(n.get("fn", "")).split("<")[0] not in ("getElem", "getElemCount", "operator()", "operator[]"):
                    for a, t in zip(args, n.get("pt", [])):
                        if t.endswith("&") and not t.startswith("const ") and "&&" not in t:
                            fld = field_of(f, a, recs)
                            if fld:
                                clr.setdefault(fam, {}).setdefault(fld, n["line"])
    for fam, fs in sorted(acc.items()):
        for fld, (where, line) in sorted(fs.items()):
            c = clr.get(fam, {}).get(fld)
            if c is not None and c <= line:
                ctx.ok("accumulate", where, "%s is cleared (line %d) before it is added to" % (fld, c))
            else:
                ctx.bad("accumulate", where, "adds to '%s' of a record callers keep from call to call, without clearing it first: what an earlier call counted stays in" % fld, key="accumulate|%s|%s" % (rel(fam[0]), fld))


def unconstructed(P, ctx):
    """a thread-local object of a function is constructed when its declaration is passed: threads of a parallel region that starts after it never do"""
    seen = set()
    for f in P.all():
        if not rel(f.file).startswith("modules/"):
            continue
        ds = {d["id"]: (d, i) for i, n in enumerate(f.nodes) if n and n["k"] == "DeclStmt" for d in n["decls"] if d.get("tls")}
        if not ds:
            continue
        par = f.parents()
        def regions(x):
            r = []
            while x is not None:
                if f.nodes[x]["k"].startswith("OMP") and "Parallel" in f.nodes[x]["k"]:
                    r.append(x)
                x = par.get(x)
            return r
        for i, n in enumerate(f.nodes):
            if n and n["k"] == "DeclRefExpr" and n.get("d") in ds:
                d, at = ds[n["d"]]
                out = [r for r in regions(i) if r not in regions(at)]
                scalar = not ("::" in d["t"] or "<" in d["t"])
                k = (f.file, d["name"], f.nodes[at]["line"])
                if out and not scalar:
                    if k not in seen:
                        seen.add(k)
                        ctx.bad("unconstructed", f.where(i), "%s uses thread-local '%s' in a parallel loop, but declares (and so constructs) it before the loop: the other threads use it unconstructed" % (f.fn, d["name"]), key="unconstructed|%s|%s" % (f.fn, d["name"]))
                elif k not in seen:
                    seen.add(k)
                    ctx.ok("unconstructed", f.where(at), "%s is declared where it is used" % d["name"])
