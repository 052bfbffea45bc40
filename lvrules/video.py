"""V01-V06: background subtraction models - input guards, re-initialisation, sampling bounds, divisors, mask values, paired samples."""
import re
from .flow import *
from .ratexp import *
from . import metrics as M

ROOT = "cv::BackgroundSubtractor"


def bgs(P):
    """concrete background subtractor classes of the repository (own apply or initialize)"""
    out = []
    for r in P.recs:
        if r == ROOT or not P.recs[r].get("methods"):
            continue
        if ROOT in P.bases(r):
            out.append(r)
    return sorted(out)


def leaf_classes(P):
    b = bgs(P)
    return [r for r in b if not any(r in P.bases(x) for x in b)]


def method(P, rec, name, nparams=None):
    """the definition of a method seen from class rec (own or inherited)"""
    for r in [rec] + list(P.bases(rec)):
        for fn in P.methods_of(r):
            if last(fn.fn) == name and (nparams is None or len(fn.params) == nparams) and fn.cfg:
                return fn
    return None


def bgraph(P, fn, rec):
    return Graph(P, fn, dyn=rec, inline=M.noinline, maxdepth=6, drop_throw=True)


# ------------------------------------------------------------------------------------------------ V01
def matvars(G):
    """paths of local matrices obtained from caller supplied arrays: {path: ("in"|"out", array path)}"""
    out = {}
    for inst in G.insts:
        for d in inst.decl.values():
            if d.get("init", -1) < 0 or "cv::Mat" not in d.get("t", ""):
                continue
            v = path(inst, d["init"])
            for l in leaves(v):
                if l[0] == "call" and last(l[1]) in ("getMat", "getMatRef") and len(l) > 2:
                    t = l[1]
                    out[("L", inst.id, d["id"], d["name"])] = ("out" if is_output(inst, d["init"]) else "in", l[2])
    for inst in G.insts:  # assigned later: m = array.getMat()
        for nid, n in enumerate(inst.fn.nodes):
            if n and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2:
                v = path(inst, n["ch"][2])
                if v[0] == "call" and last(v[1]) in ("getMat", "getMatRef") and len(v) > 2:
                    p = path(inst, n["ch"][1])
                    if p[0] == "L":
                        out[p] = ("out" if is_output(inst, n["ch"][2]) else "in", v[2])
    return out


def is_output(inst, nid):
    for i in inst.fn.walk(nid):
        n = inst.fn.nodes[i]
        if n["k"] == "DeclRefExpr" and "_OutputArray" in n.get("t", ""):
            owner, info = inst.find_decl(n["d"])
            return True
    return False


def aliases(G, mats):
    """locals that are plain copies (headers) of those matrices on some path: oRGB = oInput"""
    out = {m: {m} for m in mats}
    for inst in G.insts:
        for nid, n in enumerate(inst.fn.nodes):
            if not n:
                continue
            src = dst = None
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2:
                dst, src = path(inst, n["ch"][1]), path(inst, n["ch"][2])
            if src in out and dst is not None and dst[0] == "L":
                out[src].add(dst)
        for d in inst.decl.values():
            if d.get("init", -1) >= 0 and "cv::Mat" in d.get("t", ""):
                src = path(inst, d["init"])
                if src in out:
                    out[src].add(("L", inst.id, d["id"], d["name"]))
    return out


def pixel_index(inst, nid):
    """index/offset expression of a raw `.data` access starting at the MemberExpr nid (None when unknown)"""
    fn = inst.fn
    par = fn.parents()
    i = nid
    while i in par:
        j = par[i]
        n = fn.nodes[j]
        k = n["k"]
        if k in CASTS or k in ("ParenExpr",):
            i = j
            continue
        if k == "ArraySubscriptExpr" and n["ch"][0] == i:
            return n["ch"][1]
        if k == "BinaryOperator" and n["op"] == "+":
            return n["ch"][1] if n["ch"][0] == i else n["ch"][0]
        break
    return None


def steps_in(t):
    """matrices whose row step occurs in an index"""
    out = set()
    for l in leaves(t):
        if l[0] == "M" and l[2] == "step":
            out.add(l[1])
        if l[0] == "call" and last(l[1]) in ("step1", "elemSize") and len(l) > 2:
            out.add(l[2])
    return out


def v01(P, ctx):
    done = set()
    for rec in leaf_classes(P):
        fn = None
        for r in [rec] + list(P.bases(rec)):
            c = [f for f in P.methods_of(r) if last(f.fn) == "apply" and f.cfg and any("InputArray" in p["t"] for p in f.params)]
            if c:
                fn = c[0]
                break
        if fn is None:
            continue
        guards(P, ctx, rec, fn)
        ini = method(P, rec, "initialize", 2) or method(P, rec, "initialize", 1)
        if ini is not None and ini.cfg:
            guards(P, ctx, rec, ini, True)
        for nm in ("getBackgroundImage", "getBackgroundDescriptorsImage", "refreshModel"):
            f = method(P, rec, nm)
            if f is not None and (f.fn, f.rec) not in done:
                done.add((f.fn, f.rec))
                ready(P, ctx, rec, f)


def reheaded(nd):
    """path of the matrix that this statement makes refer to other data (filling it with a Scalar keeps its layout)"""
    n = nd.n()
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2 and "Scalar" not in nd.inst.fn.nodes[n["ch"][2]].get("t", ""):
        return path(nd.inst, n["ch"][1]), path(nd.inst, n["ch"][2])
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "create":
        p = path(nd.inst, nd.ref)
        return (p[2] if len(p) > 2 else None), None
    return None, None


def token_pass(G, preds, keep=None):
    """must-analysis of 'a check with this meaning has been passed'; keep: {token: paths whose re-assignment voids it}"""
    cache = {}
    keep = keep or {}

    def extra(nd, o):
        if keep and any(f[0] == "tok" and f[1] in keep for f in o) and nd.kind == "stmt":
            w, src = reheaded(nd)
            if w is not None:
                o = frozenset(f for f in o if not (f[0] == "tok" and w in keep.get(f[1], ()) and src not in keep.get(f[1], ())))
        r = cache.get(o)
        if r is None:
            r = o
            for name, pr in preds.items():
                t = ("tok", name)
                if t not in r and M.holds(o, pr, None):
                    r = r | {t}
            cache[o] = r
        return r
    return MustFacts(G, extra)


def is_call_on(x, name, mats):
    return x[0] == "call" and last(x[1]) == name and len(x) > 2 and among(x[2], mats)


def among(x, mats):
    return x in mats or x[0] == "call" and last(x[1]) in ("getMat", "getMatRef") and len(x) > 2 and x[2] in mats


def of_matrix(t, mats):
    return any(l[0] == "M" and among(l[1], mats) and l[2] in ("size", "rows", "cols") or l[0] == "call" and last(l[1]) in ("size", "total") and len(l) > 2 and among(l[2], mats) for l in leaves(t))


def extent(t):
    """which extent an expression stands for: size (both), width, height, area - or None (a combination of them)"""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "M" and t[2] in ("width", "cols"):
        return "width"
    if t[0] == "M" and t[2] in ("height", "rows"):
        return "height"
    if t[0] == "M":
        return "area" if t[2].endswith("PxCount") else "size"
    if t[0] == "op()":
        return extent(t[1])
    if t[0] == "call":
        n = last(t[1])
        if n in ("area", "total"):
            return "area"
        if n == "size":
            return "size"
        if n.startswith("operator"):
            return extent(t[2]) if len(t) == 3 else None
        return "size" if n in ("Size_", "Size", "Size2i", "back", "front", "at") else None
    if t[0] in ("[]", "idx", "index") and len(t) > 2 and t[1][0] == "M" and t[1][2] == "size":
        return {("c", 0): "height", ("c", 1): "width"}.get(t[2][:2])
    return "size" if t[0] in ("P", "L", "V") else None


def model_field(x):
    return any(l[0] == "M" and is_model(l) for l in leaves(x))


def is_model(l):
    return sub(l, ("this",))


def guards(P, ctx, rec, fn, init=False):
    G = bgraph(P, fn, rec)
    mats = matvars(G) if not init else {("P", G.root.id, p["id"], p["name"]): ("in", None) for p in fn.params if "cv::Mat" in p["t"]}
    ins = {m: a for m, (k, a) in mats.items() if k == "in"}
    outs = {m: a for m, (k, a) in mats.items() if k == "out"}
    al = aliases(G, mats)
    preds = {"init": lambda a: a[0] == "true" and a[1][0] == "M" and a[1][2] in ("m_bInitialized",) and is_model(a[1])}
    if any(f == "m_bModelInitialized" for r in [rec] + list(P.bases(rec)) for f in M.fields(P, r)):
        preds["model"] = lambda a: a[0] == "true" and a[1][0] == "M" and a[1][2] == "m_bModelInitialized" and is_model(a[1])
    cls = {}
    tk = {m: "%d.%s.%s" % (i, m[0], m[3]) for i, m in enumerate(sorted(mats, key=str))}
    keep = {}
    for m in mats:
        cls[m] = s = frozenset(al[m])
        # the array the matrix comes from has the same type, size and layout
        s = s | {mats[m][1]} if mats[m][1] is not None else s
        for w in ("cont", "type", "size", "width", "height", "area"):
            keep[(w, tk[m])] = cls[m]
        preds[("cont", tk[m])] = lambda a, s=s: a[0] == "true" and is_call_on(a[1], "isContinuous", s)
        if m in ins:
            preds[("type", tk[m])] = lambda a, s=s: a[0] == "==" and (is_call_on(a[1], "type", s) and const_or_model(a[2]) or is_call_on(a[2], "type", s) and const_or_model(a[1]))
            for w in ("size", "width", "height", "area"):
                preds[(w, tk[m])] = lambda a, s=s, w=w: a[0] == "==" and any(extent(x) == w == extent(y) and of_matrix(x, s) and model_field(y) for x, y in ((a[1], a[2]), (a[2], a[1])))
    MF = token_pass(G, preds, keep)
    short = rec.split("<")[0].rstrip("_")
    name = last(fn.fn)
    seen = set()
    nsinks = 0

    def want(nd, tok, what, who):
        key = "guard|%s|%s|%s|%s" % (rec, name, what, who)
        def known(tok):
            return ("tok", tok) in MF.at(nd.i) or ("tok", tok) in MF.OUT.get(nd.i, ())
        # two of width, height and area determine the size
        if known(tok) or tok[0] == "size" and sum(known((w, tok[1])) for w in ("width", "height", "area")) > 1:
            if key not in seen:
                seen.add(key)
                ctx.ok("guarded", nd.inst.where(nd.ref), "%s: %s%s" % (short, what, " of " + who if who else ""))
            return
        if ("bad", key) in seen:
            return
        seen.add(("bad", key))
        ctx.bad("guarded", nd.inst.where(nd.ref), "%s::%s reaches a pixel access without having checked %s%s" % (short, name, what, " of '%s'" % who if who else ""), key=key)
    for nd in G.stmts():
        n = nd.n()
        raw = n["k"] == "MemberExpr" and n.get("n") == "data" and n.get("ch")
        typed = n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in ("at", "ptr")
        if not raw and not typed:
            continue
        if raw:
            b = path(nd.inst, n["ch"][0])
            b = deref(b) if n.get("arrow") else b
        else:
            v = path(nd.inst, nd.ref)
            b = v[2] if len(v) > 2 and v[0] == "call" else None
        if b is None:
            continue
        nsinks += 1
        if not init:
            want(nd, "init", "that the model is initialised", "")
        if "model" in preds and not init:
            want(nd, "model", "that the model samples are initialised", "")
        for m, s in cls.items():
            if b in s:
                if m in ins:
                    want(nd, ("type", tk[m]), "the type", m[3])
                    if not init:
                        want(nd, ("size", tk[m]), "the size", m[3])
                if raw and b == m:
                    ix = pixel_index(nd.inst, nd.ref)
                    t = val(nd.inst, ix) if ix is not None else None
                    if t is None or b not in steps_in(t) and not (s & steps_in(t)):
                        want(nd, ("cont", tk[m]), "the continuity", m[3])
        if raw:
            ix = pixel_index(nd.inst, nd.ref)
            if ix is not None:
                for o in steps_in(val(nd.inst, ix)):
                    for m, s in cls.items():
                        if o in s and b not in s:
                            want(nd, ("cont", tk[m]), "the continuity", m[3])
    if not nsinks and not init:
        # pixels go elsewhere (gpu upload): the guards have to precede the hand-over of the image
        for nd in G.stmts():
            n = nd.n()
            if n["k"] in CALLS and nd.ref not in nd.inst.calls and not n.get("fn", "").startswith(("cv::", "std::", "lv::Exception")):
                _, args = callee_args(n)
                for a in args:
                    p = path(nd.inst, a)
                    for m in ins:
                        if p in cls[m]:
                            want(nd, "init", "that the model is initialised", "")
                            want(nd, ("type", tk[m]), "the type", m[3])
                            want(nd, ("size", tk[m]), "the size", m[3])
                            nsinks += 1
    ctx.stats["pixel accesses"] = ctx.stats.get("pixel accesses", 0) + nsinks
    # the mask handed back has the size of the model
    for m in outs:
        a = outs[m]
        cr = [nd for nd in G.stmts() if nd.n()["k"] == "CXXMemberCallExpr" and last(nd.n().get("fn", "")) == "create" and val(nd.inst, nd.ref)[2:3] == (a,) or
              nd.n()["k"] == "CXXMemberCallExpr" and last(nd.n().get("fn", "")) == "create" and path(nd.inst, nd.ref)[2:3] == (a,)]
        good = [nd for nd in cr if any(l[0] == "M" and is_model(l) for x in path(nd.inst, nd.ref)[3:4] for l in leaves(x))]
        dn = decl_node(G, m)
        if dn is None:
            continue
        if any(dominates(G, [nd.i], dn.i) for nd in good) or dominates(G, [nd.i for nd in good], dn.i):
            ctx.ok("mask-allocated", dn.inst.where(dn.ref), short)
        elif not cr:
            ctx.bad("mask-allocated", dn.inst.where(dn.ref), "%s::apply writes into the caller's mask without giving it the size of the model" % short, key="mask|%s" % rec)
        else:
            ctx.notes.append("%s: allocation of the mask not resolved" % fn.where())


def const_or_model(x):
    return x[0] == "c" or model_field(x)


def decl_node(G, m):
    for nd in G.stmts():
        if nd.inst.id == m[1]:
            n = nd.n()
            if n["k"] == "DeclStmt" and any(d["id"] == m[2] for d in n["decls"]):
                return nd
    return None


def dominates(G, marks, b):
    """is every path from the entry to node b passing one of the marked nodes"""
    marks = set(marks)
    seen = {G.entry.i}
    st = [G.entry.i]
    while st:
        u = st.pop()
        if u in marks:
            continue
        if u == b:
            return False
        for v, c in G.nodes[u].succ:
            if v not in seen:
                seen.add(v)
                st.append(v)
    return True


def ready(P, ctx, rec, fn):
    """accessors touch the model only once it is initialised"""
    G = bgraph(P, fn, rec)
    preds = {"init": lambda a: a[0] == "true" and a[1][0] == "M" and a[1][2] == "m_bInitialized" and is_model(a[1])}
    MF = token_pass(G, preds)
    for nd in G.stmts():
        n = nd.n()
        if n["k"] == "MemberExpr" and n.get("n") == "data" or n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in ("at", "ptr") or n["k"] in ("ArraySubscriptExpr",) or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]":
            if not model_field(path(nd.inst, nd.ref)):
                continue
            key = "ready|%s|%s" % (fn.rec, last(fn.fn))
            if ("tok", "init") in MF.at(nd.i):
                ctx.ok("ready", nd.inst.where(nd.ref), fn.fn)
            else:
                ctx.bad("ready", nd.inst.where(nd.ref), "%s reads the model although it may not be initialised" % fn.fn, key=key)
            break


# ------------------------------------------------------------------------------------------------ V02
SHAPE = {"size", "empty", "channels", "type", "depth", "total", "isContinuous", "elemSize", "elemSize1", "step1", "begin", "end", "cbegin", "cend", "capacity", "max_size"}
SHAPE_F = {"rows", "cols", "step", "size", "dims", "flags"}
ELEM = {"at", "ptr", "front", "back", "data"}
SIZER = {"create", "resize", "reserve", "reshape"}
RESET = {"clear", "assign", "release"}


def root_field(v, flds):
    """(field, is element) when the access path starts at a field of the model"""
    el = False
    for _ in range(40):
        if v[0] == "M" and v[1] == ("this",):
            return (v[2], el) if v[2] in flds else (None, False)
        if v[0] == "*" and v[1][0] == "M" and v[1][1] == ("this",) and "_ptr<" in flds.get(v[1][2], ""):
            return None, False    # pointee: not part of the model
        if v[0] in ("M", "idx", "*", "&"):
            el = el or v[0] != "&"
            v = v[1]
        elif v[0] == "call" and len(v) > 2 and last(v[1]).split("<")[0] in ELEM:
            el = True
            v = v[2]
        elif v[0] in ("b+", "b-"):
            a = root_field(v[1], flds)
            if a[0]:
                return a[0], True
            v = v[2]
        else:
            return None, False
    return None, False


def use_of(inst, nid, elem):
    """[(effect, operation node)] of a reference to model storage; effects: read, write, rw, fill, over, size, reset, shape, none"""
    fn = inst.fn
    par = fn.parents()
    i = nid
    for _ in range(60):
        if i not in par:
            return "read", nid, elem
        j = par[i]
        n = fn.nodes[j]
        k = n["k"]
        ch = n.get("ch", [])
        if k in CASTS or k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            i = j
            continue
        if k == "MemberExpr":
            pj = par.get(j)
            call = fn.nodes[pj] if pj is not None else None
            if call and call["k"] == "CXXMemberCallExpr" and call["ch"][0] == j:
                nm = last(call.get("fn", "")).split("<")[0]
                if nm in ELEM:
                    i, elem = pj, True
                    continue
                if nm in SHAPE:
                    return "shape", pj, elem
                if nm in SIZER:
                    return "size", pj, elem
                if nm in RESET:
                    return "reset", pj, elem
                if nm == "setTo":
                    a = [c for c in call["ch"][1:] if c is not None]
                    whole = len(a) < 2 or inst.fn.nodes[a[1]]["k"] == "CXXDefaultArgExpr"
                    return ("fill" if whole else "rw"), pj, elem
                if pj in inst.calls:
                    return "none", pj, elem
                return ("read" if call.get("mconst") else "rw"), pj, elem
            if n.get("n") in SHAPE_F:
                return "shape", j, elem
            i, elem = j, True
            continue
        if k == "ArraySubscriptExpr" or k == "CXXOperatorCallExpr" and n.get("op") == "[]":
            if (ch[0] if k == "ArraySubscriptExpr" else ch[1]) == i:
                i, elem = j, True
                continue
            return "read", nid, elem
        if k == "UnaryOperator":
            if n["op"] in ("++", "--", "post++", "post--"):
                return "rw", j, elem
            if n["op"] == "&" and not elem and fn.nodes[par.get(j, j)]["k"] not in CALLS and fn.nodes[par.get(j, j)]["k"] not in ("DeclStmt", "UnaryOperator"):
                return "over", j, elem    # handed on by address: not followed, assumed to be rewritten
            if n["op"] in ("*", "&"):
                elem = elem or n["op"] == "*"
                i = j
                continue
            return "read", nid, elem
        if k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and len(ch) == 2:
            if "_ptr<" in fn.nodes[i].get("t", ""):
                return "read", nid, elem
            i, elem = j, True
            continue
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n["op"] in ASSIGN and ch[0] == i:
                return ("write" if n["op"] == "=" else "rw"), j, elem
            if n["op"] in ("+", "-") and n.get("t", "").endswith("*"):
                i, elem = j, True
                continue
            return "read", nid, elem
        if k == "CXXOperatorCallExpr" and n.get("op") in ASSIGN and len(ch) > 2 and ch[1] == i:
            if n["op"] != "=":
                return "rw", j, elem
            t = fn.nodes[ch[2]].get("t", "")
            if "cv::Mat" in fn.nodes[ch[1]].get("t", "") and "Scalar" in t:
                return "fill", j, elem
            return "write", j, elem
        if k == "CXXOperatorCallExpr" and n.get("op") in ("++", "--"):
            return "rw", j, elem
        if k in CTORS:
            t = n.get("t", "")
            if "_InputOutputArray" in t:
                return "rw", par.get(j, j), elem
            if "_OutputArray" in t:
                return "over", par.get(j, j), elem
            if "_InputArray" in t:
                return "read", nid, elem
            if n.get("cpmv"):
                i = j
                pj = par.get(j)
                if pj is not None and fn.nodes[pj]["k"] == "DeclStmt":
                    return "read", nid, elem
                continue
        if k in CALLS:
            if j in inst.calls:
                _, args = callee_args(n)
                f = inst.calls[j].fn
                for p, a in zip(f.params, args):
                    if a == i and (p.get("ref") or p["t"].endswith("*")):
                        return "none", j, elem
                return "read", nid, elem
            _, args = callee_args(n)
            nm = last(n.get("fn", ""))
            for a, t in zip(args, n.get("pt", [])):
                if a != i:
                    continue
                if nm == "memset" or nm == "fill":
                    return "fill", j, elem
                if nm == "memcpy" or nm == "copy":
                    return ("write" if args[0] == a else "read"), j, elem
                if t.endswith("&") and not t.startswith("const ") or t.endswith("*") and not t.startswith("const "):
                    if "_InputArray" in t or "InputArray" in t and "Output" not in t:
                        return "read", nid, elem
                    if "InputOutputArray" in t:
                        return "rw", j, elem
                    if "OutputArray" in t:
                        return "over", j, elem
                    return "rw", j, elem
                if "InputOutputArray" in t:
                    return "rw", j, elem
                if "OutputArray" in t:
                    return "over", j, elem
            return "read", nid, elem
        if k == "DeclStmt":
            for d in n["decls"]:
                if d.get("init") == i:
                    if d.get("ref") or d.get("t", "").rstrip().endswith("*") or d.get("t", "").rstrip().endswith("*const"):
                        return "none", j, elem
            return "read", nid, elem
        return "read", nid, elem
    return "read", nid, elem


def partial(inst, lnid, nd, ftype):
    """the loop indexes the field by its own counter and visibly skips elements"""
    if inst is not nd.inst:
        return False
    r = M.loop_range(inst.fn, lnid)
    if not r:
        return False
    var, st, bound, op, step = r
    par = inst.fn.parents()
    j = par.get(nd.ref)
    n = inst.fn.nodes[j] if j is not None else None
    if not n or not (n["k"] == "ArraySubscriptExpr" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]"):
        return False
    ix = inst.fn.nodes[M.strip(inst.fn, n["ch"][-1])]
    if ix.get("d") != var:
        return False
    if st is not None and st != 0 or step not in (1, None):
        return True
    c = inst.fn.nodes[bound].get("c")
    m = re.search(r"array<.*, (\d+)[UuLl]*>", ftype)
    if c is not None and m and op in ("<", "<=", "!="):
        return c + (op == "<=") < int(m.group(1))
    return False


class Model:
    """effects on the model's fields along one entry point"""

    def __init__(self, P, fn, rec, flds):
        self.G = G = bgraph(P, fn, rec)
        self.flds = flds
        self.ops = {}      # node index -> [(effect, field, elem)]
        self.reads = {}    # node index -> [(field, elem)]
        self.mut = set()
        byop = {}
        for nd in G.stmts():
            byop[(nd.inst.id, nd.ref)] = nd.i
        self.loopw = {}    # (inst id, loop nid) -> fields element-written in the loop
        for nd in G.stmts():
            n = nd.n()
            if n["k"] not in ("DeclRefExpr", "MemberExpr"):
                continue
            if n["k"] == "MemberExpr" and n.get("t", "").startswith("<bound"):
                continue
            p = path(nd.inst, nd.ref)
            f, el = root_field(p, flds)
            if f is None and n["k"] == "DeclRefExpr" and n.get("t", "").rstrip(" const").endswith("*"):
                f, el = root_field(val(nd.inst, nd.ref), flds)
                if f is not None and val(nd.inst, nd.ref)[0] == "M":
                    continue
            if f is None:
                continue
            if n["k"] == "MemberExpr" and p != ("M", ("this",), f):
                continue    # seen through its own base reference
            eff, op, el2 = use_of(nd.inst, nd.ref, el)
            if eff in ("shape", "none"):
                continue
            if eff in ("read", "rw"):
                self.reads.setdefault(nd.i, []).append((f, el2))
            if eff != "read":
                at = byop.get((nd.inst.id, op), nd.i)
                self.ops.setdefault(at, []).append((eff, f, el2))
                self.mut.add(f)
                if el2 and eff in ("write", "fill", "over", "rw"):
                    i, r = nd.inst, nd.ref
                    while i is not None and r is not None:
                        for l in M.enclosing_loops(i.fn, r):
                            if partial(i, l, nd, flds[f]):
                                continue
                            self.loopw.setdefault((i.id, l), set()).add(f)
                        i, r = i.caller, i.callnid
        self.run()

    def exits(self, c):
        """fields element-written by the loop that this edge leaves"""
        if c is None or c[0] != "if" or c[3]:
            return ()
        inst, nid = c[1], c[2]
        fn = inst.fn
        par = fn.parents()
        i = nid
        for _ in range(6):
            if i not in par:
                return ()
            j = par[i]
            if fn.nodes[j]["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                return self.loopw.get((inst.id, j), ())
            i = j
        return ()

    def run(self):
        G = self.G
        order = G.rpo()
        IN, OUT = {}, {}
        ch, rounds = True, 0
        while ch and rounds < 40:
            ch = False
            rounds += 1
            for u in order:
                if u == G.entry.i:
                    s = frozenset()
                else:
                    s = None
                    for p, c in G.nodes[u].pred:
                        o = OUT.get(p)
                        if o is None:
                            continue
                        ex = self.exits(c)
                        if ex:
                            o = o | {("el", f) for f in ex}
                        s = o if s is None else s & o
                    if s is None:
                        continue
                o = set(s)
                for eff, f, el in self.ops.get(u, ()):
                    if el:
                        if eff in ("write", "fill", "over", "reset"):
                            o.add(("el", f))
                    elif eff == "size":
                        o.add(("sz", f))
                    elif eff == "fill":
                        if ("sz", f) in o:
                            o.add(("ok", f))
                    elif eff in ("write", "over", "reset"):
                        o |= {("ok", f), ("sz", f)}
                o = frozenset(o)
                if IN.get(u) != s or OUT.get(u) != o:
                    IN[u], OUT[u] = s, o
                    ch = True
        self.IN, self.OUT = IN, OUT

    def exit_state(self):
        return self.IN.get(self.G.exit.i, frozenset())

    def dirty_reads(self):
        """[(node, field)] content reads of fields not yet overwritten in this run"""
        out = []
        for i, l in self.reads.items():
            s = self.IN.get(i)
            if s is None:
                continue
            for f, el in l:
                if ("ok", f) not in s and ("el", f) not in s:
                    out.append((self.G.nodes[i], f))
        return out


def carried_over(P, rec, I):
    """settings: fields that have a public setter and that initialize leaves alone; the ROI, which it reuses by contract"""
    out = set()
    for r in [rec] + list(P.bases(rec)):
        for fn in P.methods_of(r):
            if last(fn.fn).startswith("set") and fn.cfg:
                for n in fn.nodes:
                    if n and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2:
                        m = fn.nodes[n["ch"][1]]
                        if m["k"] == "MemberExpr":
                            out.add(m["n"])
                    if n and n["k"] == "BinaryOperator" and n.get("op") == "=":
                        m = fn.nodes[n["ch"][0]]
                        if m["k"] == "MemberExpr" and m["n"] not in I.mut:
                            out.add(m["n"])
    return out


def v02(P, ctx):
    for rec in leaf_classes(P):
        if "GLSL" in rec or "CUDA" in rec:
            ctx.notes.append("%s: state lives on the GPU, not analysed" % rec)
            continue
        flds = {}
        for r in [rec] + list(P.bases(rec)):
            flds.update(M.fields(P, r))
        ap = None
        for r in [rec] + list(P.bases(rec)):
            c = [f for f in P.methods_of(r) if last(f.fn) == "apply" and f.cfg and any("InputArray" in p["t"] for p in f.params)]
            if c:
                ap = c[0]
                break
        ini = method(P, rec, "initialize", 2) or method(P, rec, "initialize", 1)
        if ap is None or ini is None:
            continue
        A = Model(P, ap, rec, flds)
        I = Model(P, ini, rec, flds)
        keep = carried_over(P, rec, I)
        T = (A.mut | I.mut) - keep
        short = rec.split("<")[0].rstrip("_")
        badf = set()
        for nd, f in I.dirty_reads():
            if f in T and f not in badf:
                badf.add(f)
                ctx.bad("reset-before-use", nd.inst.where(nd.ref), "%s::initialize uses '%s' as the former run left it" % (short, f), key="dirty|%s|%s" % (rec, f))
        E = I.exit_state()
        used = {}
        for nd, f in A.dirty_reads():
            used.setdefault(f, nd)
        for f in sorted(T):
            if f in badf:
                continue
            if ("ok", f) in E or ("el", f) in E:
                ctx.ok("reset", ini.where(), "%s: %s" % (short, f))
            elif f in used:
                nd = used[f]
                ctx.bad("reset", ini.where(), "%s::initialize does not reset '%s' on every path; apply goes on from what the former run left (%s)" % (short, f, nd.inst.where(nd.ref)), key="reset|%s|%s" % (rec, f))
            else:
                ctx.ok("rewritten-per-frame", ap.where(), "%s: %s" % (short, f))
