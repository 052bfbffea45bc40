"""S01: what is stored is what is read back.  S02: damaged archives and failed saves are reported."""
import re
from .flow import *
from .ratexp import *
from .cprop import CProp
from . import metrics as M

WIDTH = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "short": 2,
         "unsigned short": 2, "char": 1, "unsigned char": 1, "signed char": 1, "float": 4, "double": 8, "bool": 1}
KEEP = ("lv::Exception", "lv::ostream", "lv::putf", "lv::getLog", "lv::getVersionStamp", "lv::getTimeStamp")


def inl(inst, n, callee):
    return not callee.fn.startswith(KEEP)


def inl2(inst, n, callee):
    return inl(inst, n, callee) and not any("MatArchiveList" in p["t"] for p in callee.params)


def base_of(p):
    while p and p[0] in ("M", "idx", "*", "&", "call") and len(p) > 1:
        if p[0] == "call":
            if len(p) > 2 and isinstance(p[2], tuple):
                p = p[2]
                continue
            return p
        if not isinstance(p[1], tuple):
            return p
        p = p[1]
    return p


def is_stream(fn, nid, out):
    t = fn.nodes[nid].get("t", "")
    return ("ofstream" in t or "ostream" in t or "fstream<" in t and "ifstream" not in t) if out else ("ifstream" in t or "istream" in t)


def stream_path(inst, nid):
    """the stream object of an insertion / extraction chain"""
    n = inst.fn.nodes[nid]
    d = 0
    while d < 200:
        d += 1
        if n["k"] in CASTS and n.get("ch"):
            nid = n["ch"][0]
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("<<", ">>"):
            nid = n["ch"][1]
        elif n["k"] == "CXXMemberCallExpr" and inst.fn.nodes[n["ch"][0]]["k"] == "MemberExpr" and last(n.get("fn", "")) in ("write", "read", "flush", "put", "operator bool"):
            nid = inst.fn.nodes[n["ch"][0]]["ch"][0]
        elif n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and nid in inst.calls:
            ci = inst.calls[nid]
            if len(ci.rets) == 1 and ci.rets[0].n().get("ch"):
                return stream_path(ci, ci.rets[0].n()["ch"][0])
            return path(inst, nid)
        else:
            return path(inst, nid)
        n = inst.fn.nodes[nid]
    return ("?",)


def member_obj(inst, n):
    m = inst.fn.nodes[n["ch"][0]]
    if m["k"] != "MemberExpr":
        return ("?",)
    b = path(inst, m["ch"][0]) if m.get("ch") else ("&", ("this",))
    return deref(b) if m.get("arrow") else b


def fileop(nd):
    """(stream path, kind, data node, length node) of an elementary stream operation; kind: raw-w raw-r txt-w txt-r line"""
    if nd.kind != "stmt":
        return None
    n = nd.n()
    inst = nd.inst
    fn = inst.fn
    if n["k"] == "CXXMemberCallExpr":
        q = n.get("fn", "")
        nm = last(q)
        if nm in ("write", "put") and "basic_ostream" in q or nm in ("read", "get") and "basic_istream" in q:
            _, a = callee_args(n)
            return member_obj_stream(inst, n), "raw-w" if "ostream" in q else "raw-r", a[0] if a else None, a[1] if len(a) > 1 else None
        return None
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("<<", ">>") and len(n["ch"]) == 3:
        t = fn.nodes[n["ch"][1]].get("t", "") + n.get("fn", "")
        if "basic_ostream" in n.get("t", "") or "basic_istream" in n.get("t", "") or "ostream" in t or "istream" in t:
            return stream_path(inst, n["ch"][1]), "txt-w" if n["op"] == "<<" else "txt-r", n["ch"][2], None
        return None
    if n["k"] == "CallExpr" and last(n.get("fn", "")).split("<")[0] == "getline":
        _, a = callee_args(n)
        return stream_path(inst, a[0]), "line", a[1], None
    return None


def member_obj_stream(inst, n):
    m = inst.fn.nodes[n["ch"][0]]
    if m["k"] == "MemberExpr" and m.get("ch"):
        return stream_path(inst, m["ch"][0])
    return ("?",)


def checked_stream(a):
    """stream whose state the atom establishes to be good"""
    if a[0] not in ("true", "false"):
        return None
    x = a[1]
    pol = a[0] == "true"
    d = 0
    if x[0] == "call" and len(x) > 2:
        nm = last(x[1]).split("<")[0]
        if nm in ("fail",) and not pol:
            return strm(x[2])
        if nm == "good" and pol:
            return strm(x[2])
        if nm == "is_open":
            return None
    if not pol:
        return None
    s = strm(x)
    return s


def strm(x):
    d = 0
    while d < 100:
        d += 1
        if x[0] in ("op>>", "op<<") and len(x) > 1:
            x = x[1]
        elif x[0] == "call" and len(x) > 2 and last(x[1]).split("<")[0] in ("flush", "getline", "write", "read"):
            x = x[2]
        elif x[0] in ("L", "P", "M", "*"):
            return x
        else:
            return None
    return None


# ------------------------------------------------------------------------------------------------ roles
def writer_role(inst, v):
    """field of the matrix a stored value stands for"""
    if v[0] == "call" and len(v) == 3 and last(v[1]) in ("type", "depth", "channels", "elemSize", "elemSize1", "step1", "total"):
        return last(v[1])
    if v[0] == "M" and v[2] in ("dims", "rows", "cols", "flags"):
        return v[2]
    if v[0] == "idx" and v[1][0] == "M" and v[1][2] == "size":
        return "size"
    if v[0] == "idx" and v[1][0] == "M" and v[1][2] == "p" and v[1][1][0] == "M" and v[1][1][2] == "size":
        return "size"
    if v[0] == "*" or v[0] == "idx":
        return "elem"
    if v[0] == "M" and v[2] == "data":
        return "data"
    return None


def value_of(inst, nid):
    """value tuple, looking through locals whose address is only handed out for storing"""
    v = val(inst, nid)
    return unwrap(inst, v)


def unwrap(inst, v, d=0):
    if d > 10:
        return v
    if v[0] == "&":
        return unwrap(inst, v[1], d + 1)
    if v[0] == "L":
        i = inst
        seen = 0
        while i is not None and seen < 30:
            if i.id == v[1]:
                break
            i = i.caller if i.caller is not None else i.defenv
            seen += 1
        if i is not None and i.id == v[1]:
            info = i.decl.get(v[2])
            if info and info.get("init", -1) >= 0 and not assigned(i.fn, v[2]) and not info["t"].endswith("*"):
                return unwrap(i, val(i, info["init"]), d + 1)
            b = i.bind.get(v[2])
            if b and not assigned(i.fn, v[2]):
                return unwrap(b[0], val(b[0], b[1]), d + 1)
    return v


def assigned(fn, d):
    for n in fn.nodes:
        if not n:
            continue
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN or n["k"] == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
            x = fn.nodes[n["ch"][0]]
            if x["k"] == "DeclRefExpr" and x.get("d") == d:
                return True
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["ch"]) == 3:
            x = fn.nodes[n["ch"][2]]
            if x["k"] == "DeclRefExpr" and x.get("d") == d:
                return True
    return False


def ret_var(inst, l, d=0):
    """variable of an inlined callee whose value a local was initialised with"""
    i = inst
    while i is not None and i.id != l[1]:
        i = i.caller
    if i is None or d > 4:
        return None
    info = i.decl.get(l[2])
    if not info or info.get("init", -1) < 0:
        return None
    x = M.strip(i.fn, info["init"])
    if x in i.calls and len(i.calls[x].rets) == 1 and i.calls[x].rets[0].n().get("ch"):
        ci = i.calls[x]
        p = path(ci, ci.rets[0].n()["ch"][0])
        return p if p[0] == "L" else None
    return None


def reader_roles(G, reach):
    """{variable path: set of roles} from what the read values are used for"""
    out = {}

    def add(x, r, nid=None):
        if x[0] == "call" and nid is not None:
            p = path(inst, nid)
            x = p if p[0] == "L" else x
        for l in leaves(x):
            if l[0] in ("L", "P") and len(l) == 4:
                out.setdefault(l, set()).add(r)
                w = ret_var(inst, l)
                if w is not None:
                    out.setdefault(w, set()).add(r)
    for u in reach:
        nd = G.nodes[u]
        if nd.kind != "stmt":
            continue
        n = nd.n()
        inst = nd.inst
        if n["k"] in CALLS:
            q = n.get("fn", "")
            _, a = callee_args(n)
            nm = last(q).split("<")[0]
            pt = n.get("pt", [])
            if (nm == "create" and "cv::Mat" in q or q in ("cv::Mat::Mat", "cv::Mat_::Mat")) and len(a) >= 3 and len(pt) >= 3 and pt[1].endswith("*"):
                add(val(inst, a[0]), "dims", a[0])
                add(val(inst, a[1]), "size", a[1])
                t = val(inst, a[2])
                add(t, "type" if t[0] in ("L", "P") or path(inst, a[2])[0] == "L" else "channels", a[2])
            elif nm in ("create",) and "cv::Mat" in q and len(a) == 3:
                add(val(inst, a[0]), "size", a[0])
                add(val(inst, a[1]), "size", a[1])
                add(val(inst, a[2]), "type", a[2])
            elif nm == "convertTo" and len(a) >= 2:
                add(val(inst, a[1]), "depth", a[1])
            op = fileop(nd)
            if op and op[1] == "raw-r" and op[3] is not None:
                L = val(inst, op[3])
                if L[0] != "c":
                    add(L, "extent")
                    for z in inst.fn.walk(op[3]):
                        if inst.fn.nodes[z]["k"] == "DeclRefExpr":
                            add(path(inst, z), "extent")
    return out


# ------------------------------------------------------------------------------------------------ event automata
def successors(G, reach, ev, start):
    """events that can come next after node `start`"""
    out, seen, st = set(), set(), [v for v, _ in G.nodes[start].succ]
    end = False
    while st:
        u = st.pop()
        if u in seen or u not in reach:
            continue
        seen.add(u)
        if u in ev:
            out.add(u)
            continue
        if u == G.exit.i:
            end = True
        st += [v for v, _ in G.nodes[u].succ]
    return out, end


def compat(w, r):
    """writer label vs reader label"""
    if w[0] != r[0]:
        return False
    if w[1] is not None and r[1] is not None and w[1] != r[1]:
        return False
    if w[2] is not None and r[2]:
        if w[2] not in r[2] and not (w[2] in ("elemSize", "total") and "extent" in r[2]):
            return False
    return True


def lab(l):
    r = l[2]
    if isinstance(r, (set, frozenset)):
        r = "/".join(sorted(r)) or "value"
    return "%s%s" % (r or l[0], " (%s bytes)" % l[1] if l[1] else "")


class Side:
    def __init__(self, P, fn, K, out):
        self.fn = fn
        self.out = out
        self.G = G = Graph(P, fn, inline=inl, maxdepth=6, drop_throw=True)
        par = [p for p in fn.params if "MatArchiveList" in p["t"]][0]

        def leaf(inst, nid):
            n = inst.fn.nodes[nid]
            if n["k"] == "DeclRefExpr" and val(inst, nid) == ("P", G.root.id, par["id"], par["name"]):
                return K
            return None
        self.cp = CProp(G, leaf)
        self.reach = set(self.cp.IN)
        self.roles = reader_roles(G, self.reach) if not out else {}
        self.ev, self.names = {}, {}
        self.keys = []
        self.collect()

    def collect(self):
        G = self.G
        for u in sorted(self.reach):
            nd = G.nodes[u]
            op = fileop(nd)
            inst = nd.inst
            if op:
                s, kind, dn, ln = op
                if kind == "raw-w":
                    L = val(inst, ln) if ln is not None else ("c", 1)
                    if L[0] == "c":
                        self.ev[u] = ("raw", L[1], writer_role(inst, value_of(inst, dn)), dn, ln)
                    else:
                        v = val(inst, dn)
                        self.ev[u] = ("run", None, "data" if v[0] == "M" and v[2] == "data" else "buffer", dn, ln)
                elif kind == "raw-r":
                    L = val(inst, ln) if ln is not None else ("c", 1)
                    v = val(inst, dn)
                    if L[0] == "c":
                        x = base_of(v)
                        self.ev[u] = ("raw", L[1], frozenset(self.roles.get(x, ())), dn, ln)
                    else:
                        self.ev[u] = ("run", None, frozenset({"data" if v[0] == "M" and v[2] == "data" else "buffer"}), dn, ln)
                elif kind == "txt-w":
                    n = inst.fn.nodes[dn]
                    v = val(inst, dn)
                    if v[0] == "s":
                        w = (v[1] or "").split()
                        if w:
                            self.names[u] = w
                    elif v[0] in ("F",) or "basic_string" in n.get("t", "") or n.get("t", "") in ("char", "const char") or "char" in n.get("t", "") and "[" in n.get("t", "") or v[0] == "call" and last(v[1]).startswith(("setprecision", "setw", "setfill")):
                        pass
                    else:
                        self.ev[u] = ("num", None, writer_role(inst, value_of(inst, dn)), dn, None)
                elif kind == "txt-r":
                    n = inst.fn.nodes[dn]
                    t = n.get("t", "")
                    if "basic_string" in t or t == "char":
                        continue
                    v = val(inst, dn)
                    x = base_of(v)
                    r = frozenset(self.roles.get(x, ()))
                    if v[0] == "*" or v[0] == "idx" and not r:
                        r = frozenset({"elem"})
                    self.ev[u] = ("num", None, r, dn, None)
            elif nd.kind == "stmt":
                n = nd.n()
                if not self.out and n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=") and len(n["ch"]) == 3:
                    l = [val(inst, c) for c in n["ch"][1:]]
                    l = [x for x in l if x[0] == "s"]
                    if l:
                        self.names[u] = l[0][1].split()
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and "FileStorage" in n.get("fn", ""):
                    v = val(inst, n["ch"][2])
                    if v[0] == "new" and v[2] and v[2][0][0] == "s":
                        v = v[2][0]
                    if v[0] == "s":
                        self.keys.append((u, v[1]))
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "<<" and "FileStorage" in n.get("fn", "") + n.get("t", ""):
                    self.keys.append((u, val(inst, n["ch"][2])))


def loops_above(inst, nid):
    out = []
    while inst is not None and nid is not None:
        for l in M.enclosing_loops(inst.fn, nid):
            out.append((inst, l))
        nid, inst = inst.callnid, inst.caller
    return out


def times(side, u):
    """how often the event happens: product of the ranges of its counting loops (None when unresolved)"""
    nd = side.G.nodes[u]
    r = Rat.c(1)
    for inst, l in loops_above(nd.inst, nd.ref):
        lr = M.loop_range(inst.fn, l)
        if not lr or lr[3] not in ("<", "!=") or lr[4] not in (1, None) or lr[1] is None:
            return None
        b = unwrap(inst, val(inst, lr[2]))
        r = r * (norm_dim(side, b) - Rat.c(lr[1]))
    return r


def norm_dim(side, v):
    ro = None
    if v[0] in ("L", "P"):
        rs = side.roles.get(v, set())
        if len(rs) == 1:
            ro = next(iter(rs))
    ro = ro or writer_role(None, v)
    if ro in ("dims", "total", "channels", "elemSize"):
        return Rat.leaf(("dim", ro))
    return Rat.leaf(v)


def compare(ctx, nm, W, R):
    pairs, st = set(), [((W.G.entry.i), (R.G.entry.i))]
    bad = False
    n = 0
    while st:
        p = st.pop()
        if p in pairs:
            continue
        pairs.add(p)
        ws, we = successors(W.G, W.reach, W.ev, p[0])
        rs, re_ = successors(R.G, R.reach, R.ev, p[1])
        used = set()
        for w in sorted(ws):
            m = [r for r in sorted(rs) if compat(W.ev[w], R.ev[r])]
            exact = [r for r in m if W.ev[w][2] in (R.ev[r][2] or ())]
            if not m:
                bad = True
                nx = ", ".join(lab(R.ev[r]) for r in sorted(rs)) or "the end"
                ctx.bad("agree", W.G.nodes[w].inst.where(W.G.nodes[w].ref), "%s archive: %s is stored where the reader expects %s" % (nm, lab(W.ev[w]), nx), key="agree|%s|%s|%s" % (nm, lab(W.ev[w]), nx))
            for r in exact or m:
                used.add(r)
                st.append((w, r))
                n += 1
        for r in sorted(rs - used):
            if not any(compat(W.ev[w], R.ev[r]) for w in ws):
                bad = True
                ctx.bad("agree", R.G.nodes[r].inst.where(R.G.nodes[r].ref), "%s archive: the reader expects %s where the writer stores %s" % (nm, lab(R.ev[r]), ", ".join(lab(W.ev[w]) for w in sorted(ws)) or "nothing"), key="agree-r|%s|%s" % (nm, lab(R.ev[r])))
        if bad:
            break
    if not bad:
        for p in sorted(pairs):
            if p[0] in W.ev:
                ctx.ok("agree", W.G.nodes[p[0]].inst.where(W.G.nodes[p[0]].ref), "%s: %s" % (nm, lab(W.ev[p[0]])))
    # how many
    for kind in ("raw", "num", "run"):
        tot = []
        for S in (W, R):
            t = {}
            for u, e in S.ev.items():
                if e[0] != kind:
                    continue
                c = times(S, u)
                k = "elem" if e[2] == "elem" or e[2] and not isinstance(e[2], str) and "elem" in e[2] else "header" if kind != "run" else None
                if k is None:
                    continue
                if c is None:
                    t[k] = None
                elif t.get(k, 0) is not None:
                    t[k] = t.get(k, Rat.c(0)) + c
            tot.append(t)
        for k in tot[0]:
            a, b = tot[0].get(k), tot[1].get(k)
            if a is None or b is None:
                continue
            if a == b:
                ctx.ok("agree", W.fn.where(), "%s: %s %s values on both sides" % (nm, a, k))
            else:
                ctx.bad("agree", W.fn.where(), "%s archive: %s %s values are stored but %s are read" % (nm, a, k, b), key="count|%s|%s" % (nm, k))
            if k == "elem" and a == b:
                full = Rat.leaf(("dim", "total")) * Rat.leaf(("dim", "channels"))
                if a == full:
                    ctx.ok("whole", W.fn.where(), "%s: every channel of every element" % nm)
                else:
                    ctx.bad("whole", W.fn.where(), "%s archive: %s values are stored instead of every channel of every element" % (nm, a), key="whole|" + nm)


def s01(P, ctx):
    en = (P.enums.get("lv::MatArchiveList") or {}).get("vals", {})
    ws = [f for f in uniq(P) if f.cfg and any("MatArchiveList" in p["t"] for p in f.params) and writes(P, f)]
    rs = [f for f in uniq(P) if f.cfg and any("MatArchiveList" in p["t"] for p in f.params) and not writes(P, f) and reads(P, f)]
    rs = [f for f in rs if not any(g is not f and any(n.get("fk") == g.fk for n in calls_of(f)) for g in rs)]
    for nm, K in sorted(en.items()):
        for wf in ws:
            for rf in rs:
                W, R = Side(P, wf, K, True), Side(P, rf, K, False)
                if not W.ev and not W.keys and not R.ev and not R.keys:
                    continue
                short = nm.replace("MatArchive_", "")
                filled(ctx, short, R)
                if W.keys or R.keys:
                    storage(ctx, short, W, R)
                    continue
                compare(ctx, short, W, R)
                names(ctx, short, W, R)
                layout(ctx, short, W)
                digits(ctx, short, W)
                restored(ctx, short, R)
    archiver(P, ctx)
    packing(P, ctx)


def uniq(P):
    seen = set()
    for f in P.all():
        if "/modules/" in f.file and f.fk not in seen:
            seen.add(f.fk)
            yield f


def calls_of(f):
    for n in f.nodes:
        if n and n["k"] in CALLS:
            yield n


def reach_calls(P, f, pred, d=0, seen=None):
    seen = seen if seen is not None else set()
    if f.fk in seen or d > 5:
        return False
    seen.add(f.fk)
    for n in calls_of(f):
        if pred(n):
            return True
        g = P.get(n["fk"], f.tu) if n.get("fk") else None
        if g is not None and g.cfg and not g.fn.startswith(KEEP) and reach_calls(P, g, pred, d + 1, seen):
            return True
    return False


def writes(P, f):
    return reach_calls(P, f, lambda n: n["k"] in CTORS and "basic_ofstream" in n.get("fn", ""))


def reads(P, f):
    return reach_calls(P, f, lambda n: n["k"] in CTORS and "basic_ifstream" in n.get("fn", ""))


def storage(ctx, nm, W, R):
    """key/value storages: the key that is looked up was stored, and the matrix follows it"""
    order = []
    seen = set()
    st = [W.G.entry.i]
    ev = {u: 0 for u, _ in W.keys}
    kv = dict(W.keys)
    cur = W.G.entry.i
    while True:
        s, _ = successors(W.G, W.reach, ev, cur)
        s = [x for x in s if x not in seen]
        if len(s) != 1:
            break
        cur = s[0]
        seen.add(cur)
        order.append(kv[cur])
    for u, k in R.keys:
        if isinstance(k, tuple):
            continue
        idx = [i for i, v in enumerate(order) if isinstance(v, tuple) and v[0] == "s" and v[1] == k or isinstance(v, tuple) and v[0] == "new" and v[2] and v[2][0] == ("s", k)]
        if not order:
            ctx.notes.append("%s: storage order not resolved" % nm)
            continue
        if not idx:
            ctx.bad("agree", R.G.nodes[u].inst.where(R.G.nodes[u].ref), "%s archive: key '%s' is looked up but never stored" % (nm, k), key="key|%s|%s" % (nm, k))
            continue
        nx = order[idx[0] + 1] if idx[0] + 1 < len(order) else None
        if nx is None or nx[0] == "s":
            ctx.bad("agree", W.fn.where(), "%s archive: nothing is stored under key '%s'" % (nm, k), key="keyval|%s|%s" % (nm, k))
        else:
            ctx.ok("agree", R.G.nodes[u].inst.where(R.G.nodes[u].ref), "%s: key '%s'" % (nm, k))


def linear(S, evs):
    """events in order, when each pair of them can only happen in one order"""
    R = {}
    for u in evs:
        seen, st = set(), [v for v, _ in S.G.nodes[u].succ]
        while st:
            x = st.pop()
            if x not in seen and x in S.reach:
                seen.add(x)
                st += [v for v, _ in S.G.nodes[x].succ]
        R[u] = seen
    out = sorted(evs, key=lambda u: sum(u in R[v] for v in evs))
    ok = all(out[j] in R[out[i]] and out[i] not in R[out[j]] for i in range(len(out)) for j in range(i + 1, len(out)))
    return out, ok


def names(ctx, nm, W, R):
    a, oka = linear(W, W.names)
    b, okb = linear(R, R.names)
    A = [w for u in a for w in W.names[u]]
    B = [w for u in b for w in R.names[u]]
    if not A and not B:
        return
    if not oka or not okb:
        ctx.notes.append("%s: field names not resolved" % nm)
        return
    for i in range(max(len(A), len(B))):
        x, y = A[i] if i < len(A) else None, B[i] if i < len(B) else None
        if x == y:
            ctx.ok("names", W.fn.where(), "%s: field '%s'" % (nm, x))
        else:
            ctx.bad("names", W.fn.where(), "%s archive: field '%s' is stored where the reader expects '%s'" % (nm, x, y), key="name|%s|%s|%s" % (nm, x, y))
            return


class Tokens:
    """forward must-analysis of properties of matrices and streams inside one function"""

    def __init__(self, S):
        self.G, self.reach = S.G, S.reach
        self.run()

    def expr(self, inst, nid, st, what, d=0):
        """is the matrix expression continuous / 64-bit"""
        n = inst.fn.nodes[nid]
        if d > 15:
            return False
        if n["k"] in CASTS and n.get("ch"):
            return self.expr(inst, n["ch"][0], st, what, d + 1)
        if n["k"] in CTORS and n.get("cpmv") and n.get("ch"):
            return self.expr(inst, n["ch"][0], st, what, d + 1)
        if n["k"] == "ConditionalOperator":
            r = []
            for b, pol in ((1, True), (2, False)):
                s2 = set(st) | self.from_atoms(atoms(inst, n["ch"][0], pol))
                r.append(self.expr(inst, n["ch"][b], s2, what, d + 1))
            return all(r)
        if n["k"] in CALLS and nid in inst.calls:
            ci = inst.calls[nid]
            return bool(ci.rets) and all(rn.n().get("ch") and self.expr(ci, rn.n()["ch"][0], self.OUT.get(rn.i, st), what, d + 1) for rn in ci.rets)
        p = path(inst, nid)
        if (what, p) in st:
            return True
        if what == "cont" and n["k"] in CALLS:
            nm = last(n.get("fn", "")).split("<")[0]
            if nm in ("clone", "zeros", "ones"):
                return True
            if n["k"] in CTORS and n.get("fn", "").startswith("cv::Mat"):
                _, a = callee_args(n)
                pt = n.get("pt", [])
                return not any(t.startswith(("const cv::Mat", "cv::Mat", "void *")) or "Range" in t or "Rect" in t for t in pt)
        return False

    def from_atoms(self, al):
        out = set()
        for a in al:
            if a[0] == "true" and a[1][0] == "call" and len(a[1]) == 3 and last(a[1][1]) == "isContinuous":
                out.add(("cont", a[1][2]))
            if a[0] == "==" and len(a) == 3:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x == ("c", 6) and y[0] == "call" and len(y) == 3 and last(y[1]) == "depth":
                        out.add(("f64", y[2]))
            if a[0] == "or":
                out |= self.from_atoms(a[1]) & self.from_atoms(a[2])
        return out

    def run(self):
        G = self.G
        order = [u for u in G.rpo() if u in self.reach]
        self.IN, self.OUT = IN, OUT = {}, {}
        ch, k = True, 0
        while ch and k < 30:
            ch = False
            k += 1
            for u in order:
                nd = G.nodes[u]
                s = frozenset() if u == G.entry.i else None
                for p, c in nd.pred:
                    o = OUT.get(p)
                    if o is None:
                        continue
                    if c is not None:
                        o = o | self.from_atoms(edge_atoms(c))
                    s = o if s is None else s & o
                if s is None:
                    continue
                o = self.step(nd, s)
                if IN.get(u) != s or OUT.get(u) != o:
                    IN[u], OUT[u] = s, o
                    ch = True

    def step(self, nd, s):
        if nd.kind != "stmt":
            return s
        n = nd.n()
        inst = nd.inst

        def setm(x, props):
            return frozenset(t for t in s if t[1] != x) | {(w, x) for w in props}
        if n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d.get("init", -1) >= 0 and "cv::Mat" in d["t"] and not d.get("ref"):
                    x = ("L", inst.id, d["id"], d["name"])
                    s = setm(x, [w for w in ("cont", "f64") if self.expr(inst, d["init"], s, w)])
            return s
        if n["k"] not in CALLS:
            return s
        q = n.get("fn", "")
        nm = last(q).split("<")[0]
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and "cv::Mat" in q and len(n["ch"]) == 3:
            x = path(inst, n["ch"][1])
            return setm(x, [w for w in ("cont", "f64") if self.expr(inst, n["ch"][2], s, w)])
        if n["k"] == "CXXMemberCallExpr" and "cv::Mat" in q:
            _, a = callee_args(n)
            if nm == "release":
                return setm(member_obj(inst, n), ["cont"])
            if nm == "create":      # an existing matrix of the same size keeps its layout
                x = member_obj(inst, n)
                return setm(x, ["cont"] if ("cont", x) in s else [])
            if nm in ("convertTo", "copyTo") and a:
                x = path(inst, a[0])
                if x[0] == "new" and x[2]:
                    x = x[2][0]
                pr = ["cont"] if ("cont", x) in s else []
                if nm == "convertTo" and len(a) > 1:
                    t = val(inst, a[1])
                    if t == ("c", 6):
                        pr.append("f64")
                return setm(x, pr)
            if nm in ("precision",):
                pass
        if n["k"] == "CXXMemberCallExpr" and nm == "precision" and "ios_base" in q:
            _, a = callee_args(n)
            if a:
                x = member_obj_stream(inst, n)
                v = val(inst, a[0])
                s = frozenset(t for t in s if t != ("digits", x))
                if v[0] == "c" and v[1] >= 17:
                    s = s | {("digits", x)}
                return s
        op = fileop(nd)
        if op and op[1] == "txt-w":
            v = val(inst, op[2])
            x = op[0]
            m = None
            if v[0] == "call" and last(v[1]).startswith("setprecision"):
                m = v[2]
                s = frozenset(t for t in s if t != ("digits", x))
                if m[0] == "c" and m[1] >= 17:
                    s = s | {("digits", x)}
            elif v[0] == "F" and last(v[2] or "") in ("fixed", "hexfloat"):
                s = frozenset(t for t in s if t != ("digits", x))
        return s


def layout(ctx, nm, W):
    T = Tokens(W)
    # raw runs
    for u, e in sorted(W.ev.items()):
        nd = W.G.nodes[u]
        inst = nd.inst
        if e[0] == "run" and e[2] == "data":
            X = val(inst, e[3])[1]
            ok = ("cont", X) in T.IN.get(u, ())
            if ok:
                ctx.ok("whole", inst.where(nd.ref), "%s: the stored matrix is continuous" % nm)
            else:
                ctx.bad("whole", inst.where(nd.ref), "%s archive: the data of a matrix that may be a view of a larger one is stored as one run" % nm, key="cont|" + nm)
            L = unwrap_all(inst, val(inst, e[4]))
            want = sorted(["elemSize", "total"])
            got = sorted(filter(None, (writer_role(inst, f) for f in factors(L))))
            if got == want and len(factors(L)) == 2:
                ctx.ok("whole", inst.where(nd.ref), "%s: elemSize*total bytes" % nm)
            elif len(got) == len(factors(L)):
                ctx.bad("whole", inst.where(nd.ref), "%s archive: the run stored is not element size * element count bytes" % nm, key="runlen|" + nm)
            else:
                ctx.notes.append("%s: %s: length of the stored run not resolved" % (inst.where(nd.ref), nm))
        if e[0] == "num" and e[2] == "elem":
            v = path(inst, e[3])
            p = v[1]
            while p[0] in ("upost++", "u++", "*"):
                p = p[1]
            X = None
            if p[0] == "L":
                i = inst
                while i is not None and i.id != p[1]:
                    i = i.caller
                if i is not None:
                    d = i.decl.get(p[2])
                    if d and d.get("init", -1) >= 0:
                        w = val(i, d["init"])
                        X = base_mat(w)
                        at = [nn.i for nn in W.G.nodes if nn.kind == "stmt" and nn.inst is i and nn.n()["k"] == "DeclStmt" and any(dd["id"] == p[2] for dd in nn.n()["decls"])]
                        uu = at[0] if at else u
            else:
                X = base_mat(v)
                uu = u
            if X is None:
                ctx.notes.append("%s: %s: matrix of the stored elements not resolved" % (inst.where(nd.ref), nm))
                continue
            for w, tx in (("cont", "may be a view of a larger one"), ("f64", "may not hold 64-bit floating point values")):
                if (w, X) in T.IN.get(uu, ()):
                    ctx.ok("whole", inst.where(nd.ref), "%s: %s" % (nm, w))
                else:
                    ctx.bad("whole", inst.where(nd.ref), "%s archive: elements are taken from consecutive doubles of a matrix that %s" % (nm, tx), key="%s|%s" % (w, nm))


def filled(ctx, nm, R):
    """a matrix whose memory is filled in one run must not be (and stay) a view of a larger one"""
    T = Tokens(R)
    for u in sorted(R.reach):
        nd = R.G.nodes[u]
        if nd.kind != "stmt":
            continue
        n, inst = nd.n(), nd.inst
        X = None
        op = fileop(nd)
        if op and op[1] == "raw-r" and op[2] is not None:
            v = path(inst, op[2])
            if v[0] == "M" and v[2] == "data":
                X = v[1]
        elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["ch"]) == 3 and "FileNode" in inst.fn.nodes[n["ch"][1]].get("t", "") \
                and re.sub("const |&| ", "", inst.fn.nodes[n["ch"][2]].get("t", "")).startswith("cv::Mat"):
            X = path(inst, n["ch"][2])
        if X is None or X[0] not in ("L", "P"):
            continue
        if ("cont", X) in T.IN.get(u, ()):
            ctx.ok("whole", inst.where(nd.ref), "%s: the matrix read into is continuous" % nm)
        else:
            ctx.bad("whole", inst.where(nd.ref), "%s archive: the memory of a matrix that may be a view of a larger one is filled as one run" % nm, key="rcont|" + nm)


def base_mat(v):
    while v and v[0] in ("idx", "*", "u++", "upost++", "call"):
        v = v[2] if v[0] == "call" and len(v) > 2 else v[1]
    if v and v[0] == "M" and v[2] == "data":
        return v[1]
    return None


def factors(v):
    return factors(v[1]) + factors(v[2]) if v[0] == "b*" else [v]


def unwrap_all(inst, v):
    if v[0] == "b*":
        return ("b*", unwrap_all(inst, v[1]), unwrap_all(inst, v[2]))
    return unwrap(inst, v)


def digits(ctx, nm, W):
    T = Tokens(W)
    for u, e in sorted(W.ev.items()):
        if e[0] != "num" or e[2] != "elem":
            continue
        nd = W.G.nodes[u]
        t = nd.inst.fn.nodes[e[3]].get("t", "")
        if "double" not in t and "float" not in t:
            continue
        s = fileop(nd)[0]
        if ("digits", s) in T.IN.get(u, ()):
            ctx.ok("digits", nd.inst.where(nd.ref), "%s: 17 significant digits" % nm)
        else:
            ctx.bad("digits", nd.inst.where(nd.ref), "%s archive: values are printed with less than 17 significant digits and come back altered" % nm, key="digits|" + nm)


# ------------------------------------------------------------------------------------------------ where outputs are stored
def archiver(P, ctx):
    save, load = {}, {}
    for f in uniq(P):
        if not f.rec or not f.cfg or "Archiver" not in f.rec:
            continue
        for n in calls_of(f):
            q = n.get("fn", "")
            if q in ("cv::imwrite", "lv::write"):
                save.setdefault(f.rec, f)
            if q in ("cv::imread", "lv::read"):
                load.setdefault(f.rec, f)
    vals = enum_of(P, save.values())
    for rec in sorted(set(save) & set(load)):
        for kn, K in sorted(vals.items(), key=lambda x: x[1]):
            for cnt in (1, 2):
                if kn == "ImagePacket" and cnt == 2:
                    continue
                a = located(P, save[rec], K, cnt, ("cv::imwrite", "lv::write"))
                b = located(P, load[rec], K, cnt, ("cv::imread", "lv::read"))
                if a is None or b is None:
                    ctx.notes.append("%s: paths for %s x%d not resolved" % (rec, kn, cnt))
                    continue
                if a == b:
                    ctx.ok("located", save[rec].where(), "%s: %s, %d stream(s): %s" % (rec, kn, cnt, " | ".join("".join(map(str, x)) for x in a)))
                else:
                    ctx.bad("located", save[rec].where(), "outputs of type %s with %d stream(s) are saved as %s but loaded from %s" % (kn, cnt, show(a), show(b)), key="located|%s|%s|%d" % (rec, kn, cnt))


def show(s):
    return " or ".join(sorted("".join(map(str, x)) for x in s)) or "nothing"


def enum_of(P, fns):
    for f in fns:
        for n in calls_of(f):
            if last(n.get("fn", "")) == "getOutputPacketType":
                t = n.get("t", "")
                for q, e in P.enums.items():
                    if q == t or q.endswith("::" + t.split("::")[-1]):
                        return e["vals"]
    return {}


def located(P, f, K, cnt, sinks):
    G = Graph(P, f, inline=lambda i, n, c: inl(i, n, c) and not c.fn.startswith(("lv::write", "lv::read")) and last(c.fn) not in ("getOutputStreamCount", "getOutputName", "getOutputPath"), maxdepth=4, drop_throw=True)

    def leaf(inst, nid):
        n = inst.fn.nodes[nid]
        if n["k"] in CALLS:
            nm = last(n.get("fn", ""))
            if nm == "getOutputPacketType":
                return K
            if nm == "getOutputStreamCount" or nm == "size" and "vector<cv::Mat" in n.get("fn", ""):
                return cnt
        return None
    cp = CProp(G, leaf)
    out = set()
    for nd in G.nodes:
        if nd.i not in cp.IN or nd.kind != "stmt" or nd.n()["k"] != "CallExpr" or nd.n().get("fn") not in sinks:
            continue
        _, a = callee_args(nd.n())
        seqs = strseq(G, cp, nd.inst, a[0], nd.i)
        if seqs is None:
            return None
        seqs = {tuple(p if not isinstance(p, tuple) else ("{i}" if same_index(nd, a, p) is not False else "{not the stream index}") for p in q) for q in seqs}
        out |= {(("img:" if "im" in nd.n()["fn"] else "bin:"),) + s for s in seqs}
    return out or None


def lit(parts):
    """merge adjacent literals"""
    out = []
    for p in parts:
        if isinstance(p, str) and p.startswith("'") and out and isinstance(out[-1], str) and out[-1].startswith("'"):
            out[-1] = out[-1][:-1] + p[1:]
        else:
            out.append(p)
    return tuple(p for p in out if p != "''")


def item(inst, v):
    if v[0] == "s":
        return "'%s'" % v[1]
    if v[0] == "c" and isinstance(v[1], int):
        return "'%s'" % (chr(v[1]) if 32 <= v[1] < 127 else v[1])
    if v[0] == "call":
        nm = last(v[1])
        if nm in ("getOutputPath", "getOutputName"):
            return "{%s}" % nm[9:].lower()
        if nm.startswith("to_string"):
            return item(inst, v[2])
        if nm == "str" and len(v) == 3:
            return None
        return None
    if v[0] in ("L", "P"):
        return v
    return None


def same_index(nd, a, p):
    """is p the index of the matrix saved / loaded here"""
    inst, fn = nd.inst, nd.inst.fn
    t = None
    if len(a) > 1 and "cv::Mat" in fn.nodes[M.strip(fn, a[1])].get("t", ""):
        v = val(inst, a[1])
        t = v
    else:
        par = fn.parents()
        x = nd.ref
        while x in par:
            x = par[x]
            if fn.nodes[x]["k"] == "CXXOperatorCallExpr" and fn.nodes[x].get("op") == "=":
                t = path(inst, fn.nodes[x]["ch"][1])
                break
            if fn.nodes[x]["k"] in ("DeclStmt", "CompoundStmt"):
                break
    if t is None or t[0] != "idx":
        return None
    return t[2] == p


def strseq(G, cp, inst, nid, u, d=0):
    """set of part sequences a string expression can have at node u"""
    if d > 12:
        return None
    n = inst.fn.nodes[nid]
    if n["k"] in CASTS or n["k"] in CTORS and n.get("ch") and (n.get("cpmv") or len(n["ch"]) >= 1 and "basic_string" in n.get("fn", "")):
        return strseq(G, cp, inst, n["ch"][0], u, d + 1) if n.get("ch") else {()}
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "+" and len(n["ch"]) == 3:
        a, b = [strseq(G, cp, inst, c, u, d + 1) for c in n["ch"][1:]]
        if a is None or b is None:
            return None
        return {lit(x + y) for x in a for y in b}
    if n["k"] == "ConditionalOperator":
        c = cp.ev(inst, n["ch"][0], cp.IN.get(u, {}))
        if c is not None:
            return strseq(G, cp, inst, n["ch"][1 if c else 2], u, d + 1)
        a, b = [strseq(G, cp, inst, x, u, d + 1) for x in n["ch"][1:3]]
        return None if a is None or b is None else a | b
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "str":
        return streamseq(G, cp, member_obj(inst, n), u)
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("c_str",):
        m = inst.fn.nodes[n["ch"][0]]
        return strseq(G, cp, inst, m["ch"][0], u, d + 1)
    if n["k"] in CALLS and nid in inst.calls:
        ci = inst.calls[nid]
        out = set()
        for rn in ci.rets:
            if rn.i not in cp.IN:
                continue
            s = strseq(G, cp, ci, rn.n()["ch"][0], rn.i, d + 1)
            if s is None:
                return None
            out |= s
        return out
    if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        t = n.get("t", "")
        owner, info = inst.find_decl(n["d"])
        if owner is not None and n["d"] in owner.bind and owner.bind[n["d"]]:
            ci, cn, _ = owner.bind[n["d"]]
            return strseq(G, cp, ci, cn, u, d + 1)
        if "basic_string" in t:
            if info is not None and info.get("init", -1) >= 0 and n["d"] not in mutated(owner.fn):
                return strseq(G, cp, owner, info["init"], u, d + 1)
            return streamseq(G, cp, path(inst, nid), u, string=True)
    x = item(inst, val(inst, nid))
    return None if x is None else {(x,)}


def streamseq(G, cp, S, u, string=False):
    """what has been appended to a string stream (or string) on the ways from its declaration to node u"""
    out, cap = set(), [0]
    # walk backwards
    st = [(u, (), frozenset())]
    while st:
        x, suf, seen = st.pop()
        cap[0] += 1
        if cap[0] > 20000:
            return None
        for p, c in G.nodes[x].pred:
            if p not in cp.IN or p in seen or pruned(cp, p, c):
                continue
            nd = G.nodes[p]
            s2 = suf
            done = False
            if nd.kind == "stmt":
                n = nd.n()
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if ("L", nd.inst.id, d["id"], d["name"]) == S:
                            if d.get("init", -1) >= 0:
                                dn = nd.inst.fn.nodes[M.strip(nd.inst.fn, d["init"])]
                                if dn["k"] in CTORS and not [c for c in dn.get("ch", []) if nd.inst.fn.nodes[c]["k"] != "CXXDefaultArgExpr"]:
                                    pass
                                else:
                                    i0 = d["init"]
                                    if dn["k"] in CTORS and dn.get("ch"):
                                        i0 = dn["ch"][0]
                                    q = strseq(G, cp, nd.inst, i0, p)
                                    if q is None or len(q) != 1:
                                        return None
                                    s2 = lit(next(iter(q)) + s2)
                            out.add(lit(s2))
                            done = True
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("<<", "+=") and len(n["ch"]) == 3:
                    tgt = stream_path(nd.inst, n["ch"][1]) if n["op"] == "<<" else path(nd.inst, n["ch"][1])
                    if tgt == S:
                        q = strseq(G, cp, nd.inst, n["ch"][2], p)
                        if q is None or len(q) != 1:
                            return None
                        s2 = lit(next(iter(q)) + s2)
            if not done:
                st.append((p, s2, seen | {p} if len(seen) < 400 else seen))
    return out or None


def pruned(cp, p, c):
    """edge whose condition is decided the other way"""
    if c is None or c[0] != "if":
        return False
    v = cp.ev(c[1], c[2], cp.IN[p])
    return v is not None and bool(v) != bool(c[3])


# ------------------------------------------------------------------------------------------------ S02
SIZERS = ("resize", "reserve", "create", "assign", "allocate", "convertTo", "zeros", "ones", "rowRange", "colRange")


def s02(P, ctx):
    roots = []
    for f in uniq(P):
        if not f.cfg or "/test/" in f.file or "/samples/" in f.file:
            continue
        if any("MatArchiveList" in p["t"] for p in f.params) and (writes(P, f) or reads(P, f)):
            roots.append(f)
        elif any(n.get("fn") == "cv::imwrite" for n in calls_of(f)):
            roots.append(f)
    for f in roots:
        io(P, ctx, f)


def local_streams(G):
    out = {}
    for nd in G.nodes:
        if nd.kind == "stmt" and nd.n()["k"] == "DeclStmt":
            for d in nd.n()["decls"]:
                t = d["t"]
                p = ("L", nd.inst.id, d["id"], d["name"])
                if d.get("ref"):
                    continue
                if "basic_ofstream" in t or t.endswith("ofstream") or "basic_fstream" in t:
                    out[p] = "out"
                elif "basic_ifstream" in t or t.endswith("ifstream"):
                    out[p] = "in"
                elif t.endswith("cv::FileStorage"):
                    out[p] = "fs"
    return out


def io(P, ctx, f):
    G = Graph(P, f, inline=inl if any("MatArchiveList" in p["t"] for p in f.params) else inl2, maxdepth=6, drop_throw=True)
    S = local_streams(G)
    for nd in G.nodes:      # streams that raise on failure by themselves
        if nd.kind == "stmt" and nd.n()["k"] == "CXXMemberCallExpr" and last(nd.n().get("fn", "")) == "exceptions":
            ctx.notes.append("%s: stream exceptions are enabled; failures of that stream are reported by the library" % nd.inst.where(nd.ref))
            S.pop(member_obj_stream(nd.inst, nd.n()), None)
    ops = {}
    for nd in G.nodes:
        op = fileop(nd)
        if op and op[0] in S:
            ops[nd.i] = op
    order = G.rpo()
    IN, OUT = {}, {}
    ch, k = True, 0
    while ch and k < 60:
        ch = False
        k += 1
        for u in order:
            nd = G.nodes[u]
            s = frozenset()
            for p, c in nd.pred:
                if p in OUT:
                    s |= clear(OUT[p], c)
            o = step(G, nd, s, ops, S)
            if IN.get(u) != s or OUT.get(u) != o:
                IN[u], OUT[u] = s, o
                ch = True
    mf = None
    # headers used before they are known to be valid; runs that fit
    for u in order:
        nd = G.nodes[u]
        if nd.kind != "stmt":
            continue
        n = nd.n()
        inst = nd.inst
        for what, nid in uses(nd):
            v = val(inst, nid)
            ls = {l for l in leaves(v) if l[0] in ("L", "P") and len(l) == 4} | {base_of(v)}
            ls |= {w for w in (ret_var(inst, l) for l in list(ls) + [path(inst, nid)] if l and l[0] == "L" and len(l) == 4) if w}
            hit = sorted({t for t in IN.get(u, ()) if t[0] == "raw" and t[1] in ls}, key=str)
            rd = any(l in readvars(G, ops) for l in ls)
            if hit:
                ctx.bad("header", inst.where(nd.ref), "%s: '%s' is used as %s although the read that provided it may have failed" % (f.fn, hit[0][1][3], what), key="header|%s|%s" % (f.fn, hit[0][1][3]))
            elif rd:
                ctx.ok("header", inst.where(nd.ref), "%s: %s comes from a read that succeeded" % (f.fn, what))
        if u in ops and ops[u][1] == "raw-r":
            if mf is None:
                mf = MustFacts(G)
            fits(ctx, f, G, mf, nd, ops[u])
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("<<", "[]") and "FileStorage" in n.get("fn", "") + inst.fn.nodes[n["ch"][1]].get("t", "") and n["op"] == "[]" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "<<" and "FileStorage" in n.get("t", ""):
            s = stream_path(inst, n["ch"][1])
            if S.get(s) == "fs":
                if ("closed", s) in IN.get(u, ()):
                    ctx.bad("opened", inst.where(nd.ref), "%s: the storage is used although it may not have been opened" % f.fn, key="opened|" + f.fn)
                else:
                    ctx.ok("opened", inst.where(nd.ref), "%s: storage known to be open" % f.fn)
    # results known at the end
    end = IN.get(G.exit.i, frozenset())
    for s, kind in S.items():
        mine = [u for u in ops if ops[u][0] == s]
        if not mine:
            continue
        if kind == "in":
            bad = sorted(t[2] for t in end if t[0] == "read" and t[1] == s)
            if bad:
                nd = G.nodes[bad[0]]
                ctx.bad("failure", nd.inst.where(nd.ref), "%s: can return normally although this read failed (the stream is not checked afterwards)" % f.fn, key="read|%s|%s" % (f.fn, s[3]))
            else:
                ctx.ok("failure", f.where(), "%s: %d reads from '%s' are checked before returning" % (f.fn, len(mine), s[3]))
        else:
            bad = [t for t in end if t[0] in ("pending", "flushed") and t[1] == s]
            if bad:
                nd = G.nodes[mine[0]]
                ctx.bad("failure", nd.inst.where(nd.ref), "%s: can return normally although writes to '%s' failed (%s)" % (f.fn, s[3], "still buffered when the stream is checked" if any(t[0] == "pending" for t in bad) else "the stream is not checked after being flushed"), key="write|%s|%s" % (f.fn, s[3]))
            else:
                ctx.ok("failure", f.where(), "%s: %d writes to '%s' are flushed and checked before returning" % (f.fn, len(mine), s[3]))
    for nd in G.nodes:
        if nd.kind == "stmt" and nd.n().get("fn") == "cv::imwrite" and nd.i in IN:
            if ("img", nd.i) in end:
                if returned(nd.inst, nd.ref):
                    ctx.notes.append("%s: the result of imwrite is returned; decided in the callers" % nd.inst.where(nd.ref))
                    continue
                ctx.bad("failure", nd.inst.where(nd.ref), "%s: returns normally although the image could not be written" % f.fn, key="imwrite|%s" % f.fn)
            else:
                ctx.ok("failure", nd.inst.where(nd.ref), "%s: the result of imwrite is required to be true" % f.fn)


def returned(inst, nid):
    par = inst.fn.parents()
    x = nid
    while x is not None:
        x = par.get(x)
        if x is None:
            return False
        k = inst.fn.nodes[x]["k"]
        if k == "ReturnStmt":
            return True
        if k == "DeclStmt":
            ds = [d["id"] for d in inst.fn.nodes[x]["decls"]]
            return any(r["k"] == "ReturnStmt" and any(inst.fn.nodes[y].get("d") in ds for y in inst.fn.walk(i)) for i, r in enumerate(inst.fn.nodes) if r)
        if k in CALLS:
            return False
    return False


_rv = {}


def readvars(G, ops):
    if id(G) not in _rv:
        _rv.clear()
        _rv[id(G)] = {target(G.nodes[u], op) for u, op in ops.items() if op[1] in ("raw-r", "txt-r", "line")}
    return _rv[id(G)]


def target(nd, op):
    v = path(nd.inst, op[2])
    if v[0] == "call" and last(v[1]) == "data" and len(v) > 2:
        v = v[2]
    return base_of(v)


def clear(s, c):
    if c is None or not s:
        return s
    al = edge_atoms(c)
    if not al:
        return s
    return clear_atoms(s, al)


def clear_atoms(s, al):
    for a in al:
        if a[0] == "or":
            s = clear_atoms(s, a[1]) | clear_atoms(s, a[2])
            continue
        x = checked_stream(a)
        if x is not None:
            s = frozenset(t for t in s if not (t[0] == "raw" and t[2] == x or t[0] == "read" and t[1] == x or t[0] == "flushed" and t[1] == x))
        if a[0] == "true" and a[1][0] == "call" and last(a[1][1]) == "isOpened" and len(a[1]) > 2:
            s = frozenset(t for t in s if t != ("closed", a[1][2]))
        if a[0] == "true" and a[1][0] == "call" and a[1][1] == "cv::imwrite":
            s = frozenset(t for t in s if t[0] != "img")
        if a[0] == "==" and len(a) == 3 and (("c", 1) in a or ("c", True) in a) and any(y[0] == "call" and y[1] == "cv::imwrite" for y in a[1:]):
            s = frozenset(t for t in s if t[0] != "img")
    return s


def step(G, nd, s, ops, S):
    if nd.kind != "stmt":
        return s
    n = nd.n()
    inst = nd.inst
    if nd.i in ops:
        st, kind, dn, ln = ops[nd.i]
        if kind in ("raw-r", "txt-r", "line"):
            x = target(nd, ops[nd.i])
            return s | {("raw", x, st), ("read", st, nd.i)}
        v = val(inst, dn)
        if kind == "txt-w" and v[0] == "F" and last(v[2] or "").split("<")[0] in ("endl", "flush"):
            return frozenset(("flushed", st) if t == ("pending", st) else t for t in s)
        if kind == "txt-w" and (v[0] == "F" or v[0] == "call" and last(v[1]).startswith(("setprecision", "setw"))):
            return s
        return s | {("pending", st)}
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("flush", "close"):
        st = member_obj_stream(inst, n)
        return frozenset(("flushed", st) if t == ("pending", st) else t for t in s)
    if n["k"] == "DeclStmt":
        for d in n["decls"]:
            p = ("L", inst.id, d["id"], d["name"])
            if S.get(p) == "fs":
                s = s | {("closed", p)}
    if n.get("fn") == "cv::imwrite":
        s = s | {("img", nd.i)}
    if n["k"] in ("BinaryOperator",) and n.get("op") == "=":
        x = path(inst, n["ch"][0])
        s = frozenset(t for t in s if not (t[0] == "raw" and t[1] == x))
    return s


def uses(nd):
    n = nd.n()
    inst = nd.inst
    fn = inst.fn
    if n["k"] in CALLS:
        q = n.get("fn", "")
        nm = last(q).split("<")[0]
        _, a = callee_args(n)
        if n["k"] in CTORS and not n.get("cpmv") and ("vector" in q or "cv::Mat" in q or "AutoBuffer" in q):
            for x in a:
                yield "a size", x
        elif n["k"] == "CXXMemberCallExpr" and nm in SIZERS:
            for x in a:
                yield "a size or type", x
        elif nm == "read" and len(a) > 1 and "istream" in q:
            yield "the length of a read", a[1]
        elif nm in ("memcpy", "copy_n", "malloc") and a:
            yield "a length", a[-1]
    if n["k"] in ("BinaryOperator",) and n.get("op") in ("<", "<=", "!=", ">", ">="):
        for i, m in enumerate(fn.nodes):
            if m and m["k"] in ("ForStmt", "WhileStmt", "DoStmt") and nd.ref in fn.walk(loopcond(m)):
                for x in n["ch"]:
                    yield "a loop bound", x


def loopcond(m):
    return m.get("cond", -1) if m.get("cond", -1) is not None and m.get("cond", -1) >= 0 else (m["ch"][0] if m.get("ch") else 0)


def fits(ctx, f, G, mf, nd, op):
    inst = nd.inst
    fn = inst.fn
    st, kind, dn, ln = op
    L = val(inst, ln) if ln is not None else ("c", 1)
    v = path(inst, dn)
    if L[0] == "c":
        x = M.strip(fn, dn)
        n = fn.nodes[x]
        while n["k"] in CASTS and n.get("ch"):
            x = n["ch"][0]
            n = fn.nodes[x]
        if n["k"] == "UnaryOperator" and n.get("op") == "&":
            t = fn.nodes[n["ch"][0]].get("t", "").replace("const ", "")
            w = WIDTH.get(t)
            if w is None:
                return
            if L[1] > w:
                ctx.bad("fits", inst.where(nd.ref), "%s: %d bytes are read into a value of %d bytes" % (f.fn, L[1], w), key="width|%s|%s" % (f.fn, t))
            else:
                ctx.ok("fits", inst.where(nd.ref), "%s: %d bytes into %s" % (f.fn, L[1], t))
        return
    facts = mf.at(nd.i)
    if v[0] == "M" and v[2] == "data":
        X = v[1]
        fs = factors(unwrap_all(inst, L))
        have = []
        for z in fs:
            r = writer_role(inst, z) if z[0] == "call" and len(z) == 3 and z[2] == X else None
            if r is None:
                eq = set()
                for a in facts:
                    if a[0] == "==" and len(a) == 3:
                        for p, q in ((a[1], a[2]), (a[2], a[1])):
                            if p == z and q[0] == "call" and len(q) == 3 and q[2] == X:
                                eq.add(last(q[1]))
                r = "elemSize" if "elemSize" in eq else "total" if "total" in eq else None
            have.append(r)
        if sorted(map(str, have)) == ["elemSize", "total"]:
            ctx.ok("fits", inst.where(nd.ref), "%s: element size * element count of the created matrix" % f.fn)
            return
        # a bound on the whole product
        for a in facts:
            if a[0] in ("==", "<=", "<") and len(a) == 3 and L in a[1:]:
                o = a[2] if a[1] == L else a[1]
                rs = sorted(str(writer_role(inst, z)) for z in factors(unwrap_all(inst, o)))
                if rs == ["elemSize", "total"] and (a[0] == "==" or a[1] == L):
                    ctx.ok("fits", inst.where(nd.ref), "%s: length bounded by the size of the created matrix" % f.fn)
                    return
        ctx.bad("fits", inst.where(nd.ref), "%s: the length of the run read into the matrix comes from the file and is not checked against the size of the matrix" % f.fn, key="fits|" + f.fn)
        return
    b = target(nd, op)
    for w in G.nodes:
        if w.kind == "stmt" and w.n()["k"] in ("CXXMemberCallExpr",) and last(w.n().get("fn", "")) == "resize" and member_obj(w.inst, w.n()) == b:
            _, a = callee_args(w.n())
            if a and val(w.inst, a[0]) == L:
                ctx.ok("fits", inst.where(nd.ref), "%s: buffer resized to the length read" % f.fn)
                return
    ctx.notes.append("%s: size of the buffer read into not resolved" % inst.where(nd.ref))


def restored(ctx, nm, R):
    """the reader rebuilds a matrix of the stored shape and type"""
    if not R.ev:
        return
    have = set()
    for e in R.ev.values():
        if isinstance(e[2], frozenset):
            have |= e[2]
    if not ({"dims", "size"} & have):
        ctx.notes.append("%s: use of the header not resolved" % nm)
        return
    lack = [r for r in ("dims", "size") if r not in have]
    if "type" not in have and not {"channels", "depth"} <= have:
        lack.append("element type")
    if lack:
        ctx.bad("whole", R.fn.where(), "%s archive: the %s stored is not used to rebuild the matrix" % (nm, " and ".join(lack)), key="restored|" + nm)
    else:
        ctx.ok("whole", R.fn.where(), "%s: shape and type of the matrix are restored" % nm)


# ------------------------------------------------------------------------------------------------ packed matrices
def packing(P, ctx):
    for f in uniq(P):
        if not f.cfg or "/utils/" not in f.file or last(f.fn) not in ("packData", "unpackData") or "opencv" not in f.file:
            continue
        G = Graph(P, f, inline=inl, maxdepth=3, drop_throw=True)
        adv, use = {}, {}
        for nd in G.nodes:
            if nd.kind != "stmt":
                continue
            n = nd.n()
            inst = nd.inst
            if n["k"] == "CompoundAssignOperator" and n["op"] == "+=":
                x = path(inst, n["ch"][0])
                if x[0] == "L":
                    adv.setdefault(x, []).append((nd, n["ch"][1]))
            if n["k"] in CTORS and n.get("fn") == "cv::Mat::Mat":
                _, a = callee_args(n)
                for y in a:
                    v = val(inst, y)
                    while v[0] in ("&",):
                        v = v[1]
                    if v[0] == "b+" and any(z[0] == "M" and z[2] == "data" for z in v[1:]):
                        o = [z for z in v[1:] if not (z[0] == "M" and z[2] == "data")]
                        if len(o) == 1 and o[0][0] == "L":
                            use.setdefault(o[0], []).append((nd, a))
        found = False
        for x in set(adv) & set(use):
            found = True
            offsets(P, ctx, f, G, x, adv[x], use[x])
        if not found:
            ctx.notes.append("%s: packing offsets not resolved" % f.fn)


def element(v):
    """(element expression) whose total/elemSize/size/type is taken"""
    while v and v[0] in ("call", "M", "idx", "*", "&", "u&"):
        if v[0] == "call":
            if len(v) < 3 or last(v[1]) not in ("total", "elemSize", "type", "dims", "sizes", "operator()", "operator int", "size"):
                break
            v = v[2]
        elif v[0] == "M" and v[2] in ("size", "type", "dims", "p"):
            v = v[1]
        elif v[0] in ("&", "u&"):
            v = v[1]
        else:
            break
    return v


def what_of(v):
    r = last(v[1]) if v[0] == "call" else v[2] if v[0] == "M" else None
    return r


def offsets(P, ctx, f, G, x, adv, use):
    nm = f.fn
    if len(adv) != 1 or len(use) != 1:
        ctx.notes.append("%s: several uses of the packing offset" % nm)
        return
    (na, e), (nu, a) = adv[0], use[0]
    inst = na.inst
    v = unwrap_all(inst, val(inst, e))
    fs = factors(v)
    got = sorted(str(what_of(z)) for z in fs)
    els = {element(z) for z in fs}
    if got == ["elemSize", "total"] and len(els) == 1:
        ctx.ok("packed", inst.where(na.ref), "%s: the offset advances by the byte size of the element" % nm)
    elif all(g in ("elemSize", "total", "elemSize1", "channels", "size", "dims") for g in got) and len(got) <= 3:
        ctx.bad("packed", inst.where(na.ref), "%s: the offset does not advance by the byte size (element size * count) of the packed matrix" % nm, key="advance|" + nm)
        return
    else:
        ctx.notes.append("%s: advance of the packing offset not resolved" % nm)
        return
    el = next(iter(els))
    # the view at the offset has the shape and type of the same element
    vs = [unwrap(inst, val(nu.inst, y)) for y in a]
    ee = {element(z) for z in vs if z[0] in ("call", "M") and what_of(z) in ("dims", "size", "sizes", "type", "operator()")}
    if ee == {el}:
        ctx.ok("packed", nu.inst.where(nu.ref), "%s: view of the shape and type of the same element" % nm)
    elif len(ee) == 1 and all(z[0] in ("idx", "L") for z in ee):
        ctx.bad("packed", nu.inst.where(nu.ref), "%s: the view at the current offset does not have the shape of the element whose size advances the offset" % nm, key="view|" + nm)
    # initial value and order
    d = G.root.decl.get(x[2]) if x[1] == G.root.id else None
    if d and d.get("init", -1) >= 0:
        i0 = val(G.root, d["init"])
        if i0 == ("c", 0):
            ctx.ok("packed", f.where(), "%s: offsets start at zero" % nm)
        elif i0[0] == "c":
            ctx.bad("packed", f.where(), "%s: offsets start at %s" % (nm, i0[1]), key="start|" + nm)
    la = M.enclosing_loops(inst.fn, na.ref)
    lu = M.enclosing_loops(nu.inst.fn, nu.ref)
    if nu.inst is not inst or not la or la != lu:
        ctx.notes.append("%s: loop of the packing offset not resolved" % nm)
        return
    c = M.covers_all(inst, la[0])
    if c is None:
        ctx.ok("packed", inst.where(la[0]), "%s: every matrix is visited" % nm)
    elif c != "?":
        ctx.bad("packed", inst.where(la[0]), "%s: %s" % (nm, c), key="cover|" + nm)
    # both or neither, in that order, and skipped only for empty matrices
    MF = MustFacts(G)
    if na.i in reach_without(G, nu.i, set()) and not bypass(G, nu.i, na.i) and not bypass_back(G, na.i, nu.i):
        ctx.ok("packed", inst.where(nu.ref), "%s: data is placed before the offset moves on" % nm)
    else:
        ctx.bad("packed", inst.where(nu.ref), "%s: the offset can move on without the data being placed (or the reverse)" % nm, key="order|" + nm)
    for t in MF.at(nu.i):
        if t[0] in ("<", "<=") and len(t) == 3:
            for p, q, strict in ((t[1], t[2], t[0] == "<"),):
                if p[0] == "c" and unwrap_all(inst, q) == v and p[1] >= 1 + (0 if strict else 1):
                    ctx.bad("packed", inst.where(nu.ref), "%s: matrices of %d byte(s) or less are skipped" % (nm, p[1]), key="skip|" + nm)


def reach_without(G, s, stop):
    seen, st = set(), [v for v, _ in G.nodes[s].succ]
    while st:
        u = st.pop()
        if u in seen or u in stop:
            continue
        seen.add(u)
        st += [v for v, _ in G.nodes[u].succ]
    return seen


def bypass(G, a, b):
    """can control go from a to a again, or to the exit, without b"""
    r = reach_without(G, a, {b})
    return a in r or G.exit.i in r


def bypass_back(G, a, b):
    """can control reach a from the entry or from a itself without b"""
    return a in reach_without(G, G.entry.i, {b}) or a in reach_without(G, a, {b})
