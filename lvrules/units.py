"""V04: raw accesses to image and model matrices address one channel element of one whole pixel, with the matrix's own element type."""
import re
from .flow import *
from .ratexp import *
from . import metrics as M
from . import video as V
from .sampling import trat, const_of

WIDTH = {0: 1, 1: 1, 2: 2, 3: 2, 4: 4, 5: 4, 6: 8}
CTYPES = {"unsigned char": 1, "signed char": 1, "char": 1, "uchar": 1, "uint8_t": 1, "int8_t": 1, "unsigned short": 2, "short": 2, "ushort": 2, "uint16_t": 2,
          "int16_t": 2, "int": 4, "unsigned int": 4, "uint": 4, "int32_t": 4, "uint32_t": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8, "size_t": 8, "bool": 1}
VEC = {"b": 1, "s": 2, "w": 2, "i": 4, "f": 4, "d": 8}
FLT = {5, 6}
CN = ("M", ("this",), "m_nImgChannels")


def csize(t):
    """(bytes per component, components, is floating) of a C++ element type name; None when unknown"""
    t = t.replace("const ", "").replace("volatile ", "").replace("LBSP::desc_t", "ushort").strip(" &")
    if t.endswith("desc_t"):
        t = "ushort"
    m = re.match(r"(?:cv::)?Vec([234])([bswifd])$", t)
    if m:
        return VEC[m.group(2)], int(m.group(1)), m.group(2) in "fd"
    m = re.match(r"(?:cv::)?Vec<([\w ]+), ?(\d+)>$", t)
    if m and m.group(1) in CTYPES:
        return CTYPES[m.group(1)], int(m.group(2)), m.group(1) in ("float", "double")
    if t in CTYPES:
        return CTYPES[t], 1, t in ("float", "double")
    return None


def mattype(t, chan):
    """(depth, Rat channels) of a matrix type expression; chan(tuple) resolves Mat::channels()/type() leaves"""
    if t[0] == "c" and isinstance(t[1], int):
        return t[1] & 7, Rat.c((t[1] >> 3) + 1)
    if t[0] == "b+" and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if a[0] == "b<<" and a[2] == ("c", 3) and b[0] == "c":
                return b[1] & 7, trat(a[1]).subst_rat(chan) + Rat.c(1)
    if t == ("M", ("this",), "m_nImgType"):
        return 0, Rat.leaf(CN)
    return None


def key_of(p):
    """type-table key of a matrix path: the field, whichever element or object it is of"""
    p = strip_ref(p)
    if p[0] == "idx":
        k = key_of(p[1])
        return k if k is None or k[0] != "F" else ("F", k[1], "[]")
    if p[0] == "M":
        return ("F", p[2], "")
    if p[0] in ("L", "P"):
        return p
    if p[0] == "call" and last(p[1]).split("<")[0] in ("at", "front", "back") and len(p) > 2:
        return key_of(("idx", p[2], ("c", 0)))
    return None


def strip_ref(p):
    while p[0] in ("new",) and len(p) == 3 and isinstance(p[2], tuple) and len(p[2]) == 1 and "OutputArray" in p[1]:
        p = p[2][0]
    return p


class Types:
    def __init__(self, P, rec):
        self.tab = {}
        self.bad = set()
        self.pending = []

    def chan(self, l):
        if l[0] == "call" and last(l[1]) == "channels" and len(l) > 2:
            k = key_of(l[2])
            if k in self.tab and k not in self.bad:
                return self.tab[k][1]
        return None

    def learn(self, k, t):
        if k is None:
            return
        mt = mattype(t, self.chan)
        if mt is None or (k in self.tab and not same(self.tab[k], mt)):
            if k in self.tab or k[0] != "F":
                self.bad.add(k)
            if mt is None:
                self.bad.add(k)
            return
        self.tab[k] = mt

    def get(self, p):
        k = key_of(p)
        if k is None or k in self.bad:
            return None
        return self.tab.get(k)

    def scan(self, G):
        for inst in G.insts:
            for nid, n in enumerate(inst.fn.nodes):
                if not n or n["k"] not in CALLS:
                    continue
                nm = last(n.get("fn", ""))
                _, a = callee_args(n)
                if n["k"] == "CXXMemberCallExpr" and nm == "create" and len(a) >= 2:
                    p = path(inst, nid)
                    ti = [x for x in a[1:3] if "int" in inst.fn.nodes[x].get("t", "")]
                    three = len(a) == 3 and "Size" not in inst.fn.nodes[a[0]].get("t", "") and "int" in inst.fn.nodes[a[2]].get("t", "")
                    t = val(inst, a[2] if three else a[1])
                    if len(p) > 2 and p[0] == "call":
                        self.learn(key_of(p[2]), t)
                    elif len(p) > 2:
                        self.learn(key_of(p[2]), t)
        for inst in G.insts:       # headers assigned from typed matrices
            for nid, n in enumerate(inst.fn.nodes):
                if n and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2 and "cv::Mat" in inst.fn.nodes[n["ch"][1]].get("t", "") and "Scalar" not in inst.fn.nodes[n["ch"][2]].get("t", ""):
                    k, v = key_of(path(inst, n["ch"][1])), path(inst, n["ch"][2])
                    if v[0] == "call" and last(v[1]) == "clone" and len(v) > 2:
                        v = v[2]
                    t = self.get(v)
                    if k is None:
                        continue
                    if t is not None:
                        if k in self.tab and not same(self.tab[k], t):
                            self.bad.add(k)
                        self.tab.setdefault(k, t)
                    elif k[0] == "L" and key_of(v) is None:
                        self.bad.add(k)
        for inst in G.insts:
            for d in inst.decl.values():
                if d.get("init", -1) >= 0 and re.sub(r"^const ", "", d.get("t", "")).strip() in ("cv::Mat", "class cv::Mat", "auto"):
                    t = self.init_type(inst, d["init"])
                    if t is not None:
                        self.learn(("L", inst.id, d["id"], d["name"]), t)

    def init_type(self, inst, nid, d=0):
        """type expression of a matrix creating expression"""
        n = inst.fn.nodes[nid]
        if d > 8:
            return None
        nm = last(n.get("fn", "")) if n["k"] in CALLS else ""
        _, a = callee_args(n) if n["k"] in CALLS else (None, [])
        if nm in ("zeros", "ones") and len(a) >= 2 and "int" in inst.fn.nodes[a[-1]].get("t", ""):
            return val(inst, a[-1])
        if n["k"] in CTORS and nm == "Mat" and len(a) >= 2 and not n.get("cpmv"):
            at = [inst.fn.nodes[x].get("t", "") for x in a]
            if "Size" in at[0] and "int" in at[1]:
                return val(inst, a[1])
            if len(a) >= 3 and at[0] == at[1] == at[2] == "int":
                return val(inst, a[2])
            return None
        if n["k"] in CASTS | {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"} and n.get("ch"):
            return self.init_type(inst, n["ch"][0], d + 1)
        if n["k"] in CTORS and len(n["ch"]) == 1:
            return self.init_type(inst, n["ch"][0], d + 1)
        if n["k"] == "CXXMemberCallExpr" and inst.fn.nodes[n["ch"][0]].get("ch"):  # operator Mat() of a MatExpr
            return self.init_type(inst, inst.fn.nodes[n["ch"][0]]["ch"][0], d + 1) if "operator" in nm else None
        return None


def same(a, b):
    return a[0] == b[0] and a[1] == b[1]


def ptr_scale(t):
    t = t.replace("const", "").replace("restrict", "").strip()
    if not t.endswith("*"):
        return None
    c = csize(t[:-1].strip())
    return c


class Access:
    __slots__ = ("inst", "nid", "off", "w", "flt", "use", "idx")

    def __init__(self, inst, nid, off, w, flt):
        self.inst, self.nid, self.off, self.w, self.flt = inst, nid, off, w, flt


def climb(G, inst, nid, off, sc, out, esc, d=0):
    """follow a byte pointer from nid upwards to the places where it is dereferenced"""
    fn = inst.fn
    par = fn.parents()
    i = nid
    while True:
        if d > 12:
            return
        dec = decl_of_init(inst, i)
        if dec is not None:
            if ptr_scale(dec.get("t", "")) is None and not dec.get("t", "").strip().endswith("*") and "auto" not in dec.get("t", ""):
                esc.append((inst, i))
                return
            if dec["id"] in mutated(fn) and pointer_moved(fn, dec["id"]):
                esc.append((inst, i))
                return
            for u, n in enumerate(fn.nodes):
                if n and n["k"] == "DeclRefExpr" and n.get("d") == dec["id"]:
                    climb(G, inst, u, off, sc, out, esc, d + 1)
            for li in G.insts:   # lambdas that capture the pointer
                if li is not inst and li.defenv is inst:
                    for u, n in enumerate(li.fn.nodes):
                        if n and n["k"] == "DeclRefExpr" and n.get("d") == dec["id"]:
                            climb(G, li, u, off, sc, out, esc, d + 1)
            return
        if i not in par:
            esc.append((inst, i))
            return
        j = par[i]
        n = fn.nodes[j]
        k = n["k"]
        if k in CASTS:
            t = n.get("t", "")
            c = ptr_scale(t)
            if c is not None and c[1] == 1:
                sc = (c[0], c[2])
            elif t.strip().endswith("*") and "void" in t:
                esc.append((inst, j))
                return
            i = j
            continue
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            i = j
            continue
        if k == "BinaryOperator" and n["op"] in ("+", "-") and "*" in n.get("t", ""):
            o = n["ch"][1] if n["ch"][0] == i else n["ch"][0]
            t = rat(inst, o) * Rat.c(sc[0])
            off = off + t if n["op"] == "+" else off - t
            i = j
            continue
        if k == "ArraySubscriptExpr" and n["ch"][0] == i:
            out.append(Access(inst, j, off + rat(inst, n["ch"][1]) * Rat.c(sc[0]), sc[0], sc[1]))
            return
        if k == "UnaryOperator" and n["op"] == "*":
            out.append(Access(inst, j, off, sc[0], sc[1]))
            return
        if k in CALLS and j in inst.calls:
            ci = inst.calls[j]
            _, a = callee_args(n)
            for p, an in zip(ci.fn.params, a):
                if an == i or M.strip(fn, an) == M.strip(fn, i):
                    if p["id"] in mutated(ci.fn) and pointer_moved(ci.fn, p["id"]):
                        esc.append((inst, j))
                        return
                    for u, m in enumerate(ci.fn.nodes):
                        if m and m["k"] == "DeclRefExpr" and m.get("d") == p["id"]:
                            climb(G, ci, u, off, sc, out, esc, d + 1)
            return
        esc.append((inst, j))
        return


def pointer_moved(fn, did):
    """is the pointer itself (not what it points to) written"""
    for n in fn.nodes:
        if not n:
            continue
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN or n["k"] == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--", "&"):
            b = M.strip(fn, n["ch"][0])
            if fn.nodes[b]["k"] == "DeclRefExpr" and fn.nodes[b].get("d") == did:
                return True
    return False


def decl_of_init(inst, nid):
    for d in inst.decl.values():
        if d.get("init", -1) == nid and not d.get("ref"):
            return d
    return None


def channels_set(P, rec):
    """channel counts that the class can be initialised with (established by checks on every path of initialize)"""
    fn = V.method(P, rec, "initialize", 2)
    if fn is None:
        return {1, 3, 4}
    G = V.bgraph(P, fn, rec)
    full = {1, 2, 3, 4}
    img = ("P", G.root.id, fn.params[0]["id"], fn.params[0]["name"])

    def sets(a):
        if a[0] == "==":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] == "c" and isinstance(y[1], int):
                    if x == CN or x[0] == "call" and last(x[1]) == "channels" and x[2:3] == (img,):
                        return {y[1]}
                    if x[0] == "call" and last(x[1]) == "type" and x[2:3] == (img,) or x == ("M", ("this",), "m_nImgType"):
                        return {(y[1] >> 3) + 1}
            return full
        if a[0] == "or":
            u = []
            for side in (a[1], a[2]):
                s = set(full)
                for x in side:
                    s &= sets(x)
                u.append(s)
            return u[0] | u[1]
        return full

    tok = {}

    def extra(nd, o):
        add = set()
        for a in o:
            if a[0] in ("==", "or") and a not in tok:
                tok[a] = frozenset(sets(a))
            if a[0] in ("==", "or") and tok[a] != full:
                add.add(("chset", tok[a]))
        return o | add if add - o else o
    MF = MustFacts(G, extra)
    res = None
    for u in G.nodes:
        if not u.succ and u.kind == "exit" and u.inst is G.root and u.i in MF.IN:
            s = set(full)
            for a in MF.at(u.i):
                if a[0] == "chset":
                    s &= a[1]
            res = s if res is None else res | s
    return res if res is not None else {1, 3, 4}


def v04(P, ctx):
    done = set()
    for rec in V.leaf_classes(P):
        if "GLSL" in rec:
            continue
        fns = []
        for nm in ("initialize", "apply", "refreshModel", "getBackgroundImage", "getBackgroundDescriptorsImage"):
            for r in [rec] + list(P.bases(rec)):
                c = [f for f in P.methods_of(r) if last(f.fn) == nm and f.cfg and not (nm == "apply" and not any("InputArray" in p["t"] for p in f.params))]
                if c:
                    fns += c
                    break
        graphs = [V.bgraph(P, f, rec) for f in fns]
        T = Types(P, rec)
        for _ in (0, 1):
            T.bad = set()
            for G in graphs:
                T.scan(G)
        chs = channels_set(P, rec)
        fieldexp = field_defs(graphs)
        for f, G in zip(fns, graphs):
            accesses(P, ctx, rec, f, G, T, chs, fieldexp, done)


def field_defs(graphs):
    """byte-offset fields of per-pixel tables: {field name: [Rat]}"""
    out = {}
    for G in graphs:
        for inst in G.insts:
            for nid, n in enumerate(inst.fn.nodes):
                if n and n["k"] == "BinaryOperator" and n["op"] == "=":
                    l = inst.fn.nodes[M.strip(inst.fn, n["ch"][0])]
                    if l["k"] == "MemberExpr" and re.search(r"Idx$|Offset$|Iter$", l.get("n", "")) and l.get("n") != "nModelIdx":
                        out.setdefault(l["n"], []).append(rat(inst, n["ch"][1]))
    return out


def matrix_uses(P, rec, f, G, T):
    """every raw or typed access of a matrix: (node, typed?, matrix path, (depth, channels) or None, facts there, types known from facts, facts solver)"""
    mats = V.matvars(G)
    al = V.aliases(G, mats) if mats else {}
    src = {}
    for m, s in al.items():
        for x in s:
            src.setdefault(x, set()).add(m)
    if last(f.fn) == "initialize":
        for p in f.params[:1]:
            src[("P", G.root.id, p["id"], p["name"])] = {"in"}
    MF = None
    for nd in G.stmts():
        n = nd.n()
        inst = nd.inst
        raw = n["k"] == "MemberExpr" and n.get("n") == "data" and n.get("ch") and "cv::Mat" in n.get("rec", "cv::Mat")
        typed = n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in ("at", "ptr") and "cv::Mat" in n.get("fn", "")
        if not raw and not typed:
            continue
        if raw:
            b = path(inst, n["ch"][0])
            b = deref(b) if n.get("arrow") else b
            bt = inst.fn.nodes[n["ch"][0]].get("t", "")
            if "Mat" not in bt:
                continue
        else:
            v = path(inst, nd.ref)
            b = v[2] if len(v) > 2 and v[0] == "call" else None
            if b is None:
                continue
        mt = T.get(b)
        if mt is None and b in src:
            if "in" in src[b] or any(m in mats and mats[m][0] == "in" for m in src[b]):
                mt = (0, Rat.leaf(CN)) if "LBSP" in " ".join(P.bases(rec)) + rec or any("m_nImgChannels" in M.fields(P, r) for r in [rec] + list(P.bases(rec))) else None
            elif any(m in mats and mats[m][0] == "out" for m in src[b]):
                arrs = [mats[m][1] for m in src[b] if m in mats]
                mt = T.get(arrs[0]) if arrs else None
        if MF is None:
            MF = MustFacts(G)
        facts = set(MF.at(nd.i))
        FT = {}
        for a in facts:
            if a[0] == "==" and len(a) == 3:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == "call" and last(x[1]) == "type" and len(x) == 3:
                        t = mattype(y, T.chan)
                        if t is not None:
                            FT[x[2]] = t
        if mt is None:
            mt = FT.get(b)
        yield nd, typed, b, mt, facts, FT, MF


def accesses(P, ctx, rec, f, G, T, chs, fieldexp, done):
    for nd, typed, b, mt, facts, FT, MF in matrix_uses(P, rec, f, G, T):
        inst, n = nd.inst, nd.n()
        if mt is None:
            if ("?", str(b)) not in done:
                done.add(("?", str(b)))
                ctx.stats["untyped"] = ctx.stats.get("untyped", 0) + 1
            continue
        cn = channel_fact(facts | local_facts(G, inst, nd.ref), chs)
        what = name_of(b)
        if typed:
            check_typed(ctx, rec, f, nd, n, b, mt, cn, what, done)
            continue
        acc, esc = [], []
        climb(G, inst, nd.ref, Rat.c(0), (1, False), acc, esc)
        for a in acc:
            cn2 = cn
            if a.nid != nd.ref or a.inst is not inst:
                f2 = at_access(G, MF, a)
                cn2 = channel_fact(facts | f2 | local_facts(G, a.inst, a.nid) | local_facts(G, inst, nd.ref), chs)
            check_raw(ctx, rec, f, nd, a, b, mt, cn2, what, T, FT, fieldexp, done)


def at_access(G, MF, a):
    """facts where an access (or the statement around it) is evaluated"""
    if not hasattr(G, "_bynid"):
        G._bynid = {}
        for nd in G.stmts():
            G._bynid.setdefault((nd.inst.id, nd.ref), nd.i)
    par, i = a.inst.fn.parents(), a.nid
    while True:
        u = G._bynid.get((a.inst.id, i))
        if u is not None:
            return set(MF.at(u)) if u in MF.IN else set()
        if i not in par:
            return set()
        i = par[i]


def name_of(b):
    b = strip_ref(b)
    if b[0] == "idx":
        return name_of(b[1]) + "[]"
    if b[0] == "M":
        return b[2]
    if b[0] in ("L", "P"):
        return b[3]
    return "?"


def local_facts(G, inst, nid):
    """conditions of enclosing ?: expressions and ifs, by syntax"""
    out = set()
    fn = inst.fn
    par = fn.parents()
    i = nid
    while i in par:
        j = par[i]
        n = fn.nodes[j]
        if n["k"] == "ConditionalOperator" and i != n["ch"][0]:
            out |= set(atoms(inst, n["ch"][0], i == n["ch"][1]))
        if n["k"] == "IfStmt":
            p = n.get("parts", {})
            if i == p.get("then"):
                out |= set(atoms(inst, p["cond"], True))
            elif i == p.get("else"):
                out |= set(atoms(inst, p["cond"], False))
        i = j
    return out


def channel_fact(facts, chs):
    s = set(chs)
    for a in facts:
        if a[0] in ("==", "!=") and len(a) == 3:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x == CN and y[0] == "c":
                    s = {c for c in s if (c == y[1]) == (a[0] == "==")}
    return s


def check_typed(ctx, rec, f, nd, n, b, mt, cn, what, done):
    inst = nd.inst
    isptr = last(n["fn"]).startswith("ptr")
    et = n.get("t", "").replace("const ", "").strip(" &*")
    c = csize(et)
    if c is None:
        ctx.stats["unknown-element"] = ctx.stats.get("unknown-element", 0) + 1
        return
    key = "typed|%s|%s|%s|%s" % (rec, last(f.fn), what, et)
    w, k, flt = c
    e1 = WIDTH[mt[0]]
    mc = const_of(mt[1].subst_rat(lambda l: Rat.c(list(cn)[0]) if l == CN and len(cn) == 1 else None))
    if w != e1 or flt != (mt[0] in FLT) or (mc is not None and k != 1 and k != mc) or (mc is not None and k == 1 and mc != 1 and not isptr):
        ctx.bad("element", inst.where(nd.ref), "%s::%s reads '%s' as elements of type %s, but its elements are %s x %s-byte%s" %
                (rec.split("<")[0].rstrip("_"), last(f.fn), what, et, mc if mc is not None else mt[1], e1, " floats" if mt[0] in FLT else ""), key=key)
    elif key not in done:
        done.add(key)
        ctx.ok("element", inst.where(nd.ref), "%s: %s<%s>" % (what, last(n["fn"]).split("<")[0], et))


def check_raw(ctx, rec, f, nd, a, b, mt, cns, what, T, FT, fieldexp, done):
    where = a.inst.where(a.nid)
    fnm = "%s::%s" % (rec.split("<")[0].rstrip("_"), last(f.fn))
    e1 = WIDTH[mt[0]]
    key = "raw|%s|%s" % (where.split(" <- ")[0], what)
    if a.w != e1 or a.flt != (mt[0] in FLT):
        ctx.bad("element", where, "%s accesses '%s' with a %d-byte %s element, but its elements have %d bytes%s" %
                (fnm, what, a.w, "floating" if a.flt else "integer", e1, " (float)" if mt[0] in FLT else ""), key=key + "|w")
        return
    verdicts = []
    for c in sorted(cns):
        verdicts.append(offset_ok(a, b, mt, c, T, FT, fieldexp))
    if any(v is None for v in verdicts):
        ctx.stats["unresolved"] = ctx.stats.get("unresolved", 0) + 1
        import os
        return
    bad = [(c, v) for c, v in zip(sorted(cns), verdicts) if v is not True]
    if bad:
        ctx.bad("pixel", where, "%s: the position in '%s' %s (%d-channel images)" % (fnm, what, bad[0][1], bad[0][0]), key=key + "|p")
    elif (key, str(cns)) not in done:
        done.add((key, str(cns)))
        ctx.ok("pixel", where, "%s: %s (%s)" % (fnm.split("::")[1], what, a.off))


def is_step(l):
    """(matrix, dimension) when the leaf is a step of a matrix"""
    if l[0] == "idx" and l[1][0] == "M" and l[1][2] == "p" and l[1][1][0] == "M" and l[1][1][2] == "step" and l[2][0] == "c":
        return l[1][1][1], l[2][1]
    if l[0] == "idx" and l[1][0] == "M" and l[1][2] == "step" and l[2][0] == "c":
        return l[1][1], l[2][1]
    if l[0] == "call" and last(l[1]) == "elemSize" and len(l) > 2:
        return l[2], 1
    if l[0] == "M" and l[2] == "step":
        return l[1], 0
    return None


def offset_ok(a, b, mt, c, T, FT, fieldexp):
    """True, a description of what is wrong, or None (cannot tell) - for images with c channels"""
    def sub(l, d=0):
        if l == CN:
            return Rat.c(c)
        st = is_step(l)
        if st is not None:
            t = T.get(st[0]) or FT.get(st[0])
            if t is None:
                return None
            E = Rat.c(WIDTH[t[0]]) * t[1].subst_rat(sub)
            return E if st[1] == 1 else E * Rat.leaf(("cols", key_of(st[0]) and key_of(st[0])[1]))
        if l[0] == "call" and last(l[1]) == "channels":
            k = T.chan(l)
            return k.subst_rat(sub) if k is not None else None
        if l[0] == "M" and l[2] in fieldexp and d < 3:
            e = fieldexp[l[2]]
            return e[0].subst_rat(lambda x: sub(x, d + 1))
        if l[0] == "trunc":
            return None
        return None
    if a.off.d != ONE:
        return None
    off = a.off.subst_rat(sub)
    if off.d != ONE:
        return None
    cn = const_of(mt[1].subst_rat(sub))
    if cn is None:
        return None
    e1 = WIDTH[mt[0]]
    E = int(e1 * cn)
    lo = hi = 0
    chv = []
    for m, co in off.n.items():
        if any(is_step(l) for l in m) or any(l[0] in ("?", "trunc", "?:") for l in m):
            return None
        if m == ():
            lo, hi = lo + co, hi + co
            continue
        if co % E == 0:
            if co in (E, -E):
                if len(m) == 1 and m[0][0] in ("L", "P") and is_rank(a.inst, m[0]):
                    return "is taken at '%s', the position in a list of pixel indices, instead of at the pixel listed there" % shortl(m[0])
                continue
            return "advances by %s bytes per '%s', but a pixel takes %d bytes" % (co, "*".join(shortl(l) for l in m), E)
        if E != e1 and abs(co) == e1 and len(m) == 1 and m[0][0] in ("L", "P"):
            r = channel_var(a, m[0], c, T)
            if r is None:
                return None
            st, bd, step = r
            if step and (step * e1) % E == 0 and st is not None and (st * e1) % E == 0:
                continue
            if bd is not None and st is not None:
                chv.append(m[0])
                x, y = sorted((st * co, (bd - 1) * co))
                lo, hi = lo + x, hi + y
                continue
        return "advances by %s bytes per '%s', but a pixel takes %d bytes" % (co, "*".join(shortl(l) for l in m), E)
    if lo % e1 or (lo // E != hi // E):
        if chv:
            return "runs over bytes %d..%d of a pixel of %d bytes" % (lo, hi + e1 - 1, E)
        return "adds %s bytes, which is not a channel of a pixel (%d channels of %d bytes)" % (lo, cn, e1)
    if not chv and lo % E and not 0 <= lo < E:
        return "adds %s bytes, which is not a channel of a pixel (%d channels of %d bytes)" % (lo, cn, e1)
    return True


RANKS = {}


def is_rank(inst, l):
    """the variable enumerates a list of pixel indices kept by the model (it subscripts a member vector of integers)"""
    while inst is not None:
        fn = inst.fn
        c = RANKS.get(id(fn))
        if c is None:
            c = set()
            for n in fn.nodes:
                if n and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and len(n["ch"]) == 3:
                    b, i = fn.nodes[M.strip(fn, n["ch"][1])], fn.nodes[M.strip(fn, n["ch"][2])]
                    t = (b.get("t") or "").replace("const ", "")
                    if b["k"] == "MemberExpr" and i["k"] == "DeclRefExpr" and re.match(r"std::vector<(std::)?(size_t|unsigned long)\b", t):
                        c.add(i.get("d"))
            RANKS[id(fn)] = c
        if len(l) > 2 and l[2] in c:
            return True
        inst = inst.defenv if inst.defenv is not None else inst.caller
    return False


def shortl(l):
    from .ratexp import short
    return short(l)


def channel_var(a, l, c, T):
    """(start, exclusive bound or None, step) of a loop variable; None when its values are not known at all"""
    def sub(x):
        if x == CN:
            return Rat.c(c)
        if x[0] == "call" and last(x[1]) == "channels":
            k = T.chan(x)
            return k.subst_rat(sub) if k is not None else None
        return None
    inst, seen = a.inst, False
    while inst is not None:
        for lp in [i for i, n in enumerate(inst.fn.nodes) if n and n["k"] in ("ForStmt", "WhileStmt")]:
            r = M.loop_range(inst.fn, lp)
            if r and r[0] == l[2]:
                if r[3] not in ("<", "!=", "<=") or r[4] is None:
                    return None
                v = const_of(rat(inst, r[2]).subst_rat(sub))
                return r[1], None if v is None else int(v) + (1 if r[3] == "<=" else 0), r[4]
        if l[2] in mutated(inst.fn) if len(l) > 2 else False:
            return None      # a variable that changes in some other way
        inst = inst.defenv if inst.defenv is not None else inst.caller
    return None, None, 1
