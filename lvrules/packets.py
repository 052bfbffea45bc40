"""D01: which slot of a dataset a packet index reads (index roles, ranges, video position, announced shape)."""
import re
from .flow import Graph, MustFacts, path, val, atoms, edge_atoms, last, callee_args, CALLS, CASTS, sub, lhs_written

LOADER = "lv::IIDataLoader"
READERS = {"getRawInput": "input", "getRawInputArray": "input", "getInputInfo": "input", "getInputInfoArray": "input",
           "getInputROI": "input", "getInputROIArray": "input", "getInputName": "input",
           "getRawGT": "gt", "getRawGTArray": "gt", "getGTInfo": "gt", "getGTInfoArray": "gt", "getGTROI": "gt", "getGTROIArray": "gt"}


def is_vec(t):
    return t.replace("const ", "").startswith(("std::vector<", "std::deque<", "std::array<"))


def is_map(t):
    return t.replace("const ", "").startswith(("std::unordered_map<unsigned long, unsigned long", "std::map<unsigned long, unsigned long"))


def producers(P):
    out = []
    for r in P.recs:
        if LOADER in P.bases(r) and any(is_map(f["t"]) for f in P.recs[r].get("fields", [])):
            out.append(r)
    return sorted(out)


def fields(P, rec):
    out = {}
    for r in [rec] + list(P.bases(rec)):
        for f in P.recs.get(r, {}).get("fields", []):
            out.setdefault(f["name"], f["t"])
    return out


class Norm:
    """canonical form of index and size expressions: ('lut', map, key), ('size', container)"""

    def __init__(self, P, rec, fl):
        self.P, self.rec, self.fl = P, rec, fl
        self.cache = {}

    def field(self, v):
        return v[2] if isinstance(v, tuple) and len(v) == 3 and v[0] == "M" and v[1] == ("this",) and v[2] in self.fl else None

    def __call__(self, v, d=0):
        if not isinstance(v, tuple) or not v or d > 12:
            return v
        v = tuple(self(x, d + 1) if isinstance(x, tuple) else x for x in v)
        if v[0] == "idx" and len(v) == 3:
            f = self.field(v[1])
            if f and is_map(self.fl[f]):
                return ("lut", f, v[2])
        if v[0] == "call" and len(v) >= 3:
            nm = last(v[1])
            f = self.field(v[2])
            if nm == "at" and len(v) == 4:
                if f and is_map(self.fl[f]):
                    return ("lut", f, v[3])
                return ("idx", v[2], v[3])
            if nm == "size":
                return ("size", v[2])
            if v[2] == ("this",) and len(v) == 3:
                r = self.getter(v[1])
                if r is not None:
                    return r
        if v[0] == "M" and v[-1] == "second":
            b = v[1]
            while isinstance(b, tuple) and b and b[0] in ("op->", "*", "deref", "op*") and len(b) == 2:
                b = b[1]
            if isinstance(b, tuple) and b and b[0] == "call" and last(b[1]) == "find" and len(b) == 4:
                f = self.field(b[2])
                if f and is_map(self.fl[f]):
                    return ("lut", f, b[3])
        return v

    def getter(self, q):
        """value of a parameterless method of the class that only returns an expression over the fields"""
        if q in self.cache:
            return self.cache[q]
        self.cache[q] = None
        nm = last(q)
        cs = [m for r in [self.rec] + list(self.P.bases(self.rec)) for m in self.P.methods_of(r) if last(m.fn) == nm and not m.params]
        if cs:
            m = cs[0]
            G = Graph(self.P, m, maxdepth=0)
            rs = [nd for nd in G.stmts() if nd.n()["k"] == "ReturnStmt" and nd.inst is G.root]
            if len(rs) == 1 and rs[0].n().get("ch"):
                r = self(val(rs[0].inst, rs[0].n()["ch"][0]))
                if r and r[0] in ("size", "M", "c"):
                    self.cache[q] = r
        return self.cache[q]


def facts(N, fs):
    return {(f[0],) + tuple(N(x) for x in f[1:]) for f in fs if f[0] in ("<", "<=", "==", "!=", "true", "false")}


def in_lut(fs, m, key):
    """is key known to be present in map m"""
    for f in fs:
        if f[0] == "true" and f[1][:1] == ("call",) and last(f[1][1]) in ("count", "contains") and f[1][2] == ("M", ("this",), m) and f[1][3] == key:
            return True
        if f[0] in ("==", "!=", "<", "<="):
            a, b = f[1], f[2]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[:1] == ("call",) and len(x) == 4 and x[2] == ("M", ("this",), m) and x[3] == key:
                    if last(x[1]) in ("count",) and (f[0] == "!=" and y == ("c", 0) or f[0] == "==" and y == ("c", 1) or f[0] == "<" and f[1] == ("c", 0) or f[0] == "<=" and f[1] == ("c", 1)):
                        return True
                    if last(x[1]) == "find" and f[0] == "!=" and isinstance(y, tuple) and y[:1] == ("call",) and last(y[1]) in ("end", "cend") and y[2] == ("M", ("this",), m):
                        return True
    return False


def below(fs, v, bound):
    eq = {bound}
    for f in fs:
        if f[0] == "==" and bound in f[1:]:
            eq |= set(f[1:])
    return any(f[0] == "<" and f[1] == v and f[2] in eq for f in fs)


def subscripts(G):
    """(node, container value, index value) of every element access of a vector or map"""
    for nd in G.stmts():
        n = nd.n()
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and len(n["ch"]) == 3:
            yield nd, n["ch"][1], n["ch"][2], False
        elif n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "at" and len(n["ch"]) == 2:
            m = nd.inst.fn.nodes[n["ch"][0]]
            if m["k"] == "MemberExpr" and m.get("ch"):
                yield nd, m["ch"][0], n["ch"][1], True


def d01(P, ctx):
    prods = producers(P)
    if not prods:
        ctx.notes.append("no data producer class found")
    for rec in prods:
        fl = fields(P, rec)
        for m in P.methods_of(rec):
            role = READERS.get(last(m.fn))
            if role is None or len(m.params) != 1 or m.params[0]["t"] != "unsigned long":
                continue
            if not m.params[0]["name"]:
                continue
            lookup(P, ctx, rec, fl, m, role)
        video(P, ctx, rec, fl)
    redirects(P, ctx)
    accessors(P, ctx)
    features(P, ctx)


def slot(v, prm):
    """is v the packet index, its ground truth slot, a shifted version of them, or independent of the request"""
    if v == prm:
        return "input"
    if v[:1] == ("lut",) and v[2] == prm:
        return "gt"
    if sub(v, prm):
        return "other"
    return None


def lookup(P, ctx, rec, fl, m, role):
    N = Norm(P, rec, fl)
    G = Graph(P, m, dyn=rec, inline=lambda i, n, c: c.kind == "lambda" or c.rec == rec and last(c.fn) not in READERS, maxdepth=4, drop_throw=True)
    MF = MustFacts(G)
    prm = ("P", G.root.id, m.params[0]["id"], m.params[0]["name"])
    what = "the index of the requested packet" if role == "input" else "the ground truth index that the table gives for the requested packet"
    for nd, cn, ix, at in subscripts(G):
        c = N(val(nd.inst, cn))
        i = N(val(nd.inst, ix))
        f = N.field(c)
        w = nd.inst.where(nd.ref)
        if not f:
            continue
        fs = facts(N, MF.at(nd.i))
        if is_map(fl[f]):
            if i != prm:
                if slot(i, prm) is not None or i[0] == "c":
                    ctx.bad("slot", w, "%s looks up '%s' under another key than the requested index" % (m.fn, f), key="slot|%s|%s" % (m.fn, f))
                continue
            if in_lut(fs, f, i):
                ctx.ok("known-key", w, f)
            else:
                ctx.bad("known-key", w, "%s reads '%s' for an index that may not be in it: %s" % (m.fn, f, "the lookup fails instead of giving an empty packet" if at else "the lookup adds an entry, and the packet gets the ground truth of another one"), key="known-key|%s|%s" % (m.fn, f))
            continue
        if not is_vec(fl[f]):
            continue
        s = slot(i, prm)
        if s is None:
            if below(fs, i, ("size", c)) or i[0] == "c":
                continue
            ctx.notes.append("%s: element of '%s' selected independently of the packet index at %s" % (m.fn, f, w))
            continue
        if s != role:
            ctx.bad("slot", w, "%s takes an element of '%s' that is not selected by %s" % (m.fn, f, what), key="slot|%s|%s" % (m.fn, f))
            continue
        if below(fs, i, ("size", c)):
            ctx.ok("in-range", w, "%s[%s]" % (f, s))
        else:
            ctx.bad("in-range", w, "%s takes an element of '%s' without having established that the index is below its size" % (m.fn, f), key="in-range|%s|%s" % (m.fn, f))
    # content is only announced for packets that exist
    if last(m.fn).startswith("getRaw") or last(m.fn) == "getInputName":
        streams(P, ctx, G, N, MF, m)
        return
    for nd in G.stmts():
        n = nd.n()
        if n["k"] != "ReturnStmt" or nd.inst is not G.root or not n.get("ch"):
            continue
        v = N(val(nd.inst, n["ch"][0]))
        root = v
        while isinstance(root, tuple) and root and root[0] in ("idx", "&", "*"):
            root = root[1]
        f = N.field(root)
        if not f or f.startswith("m_vEmpty"):
            continue
        fs = facts(N, MF.at(nd.i))
        w = nd.inst.where(nd.ref)
        if role == "input":
            ok = any(x[0] == "<" and x[1] == prm and (x[2][:1] == ("size",) or x[2][:1] == ("M",)) for x in fs)
        else:
            ok = any(x[0] == "<" and x[1][:1] == ("lut",) and x[1][2] == prm and in_lut(fs, x[1][1], prm) for x in fs)
        if ok:
            ctx.ok("announced", w, f)
        else:
            ctx.bad("announced", w, "%s returns '%s' for an index that may be past the end%s: such a packet has to be announced as empty" % (m.fn, f, "" if role == "input" else " or without ground truth"), key="announced|%s|%s" % (m.fn, f))


def streams(P, ctx, G, N, MF, m):
    """result[i] is filled from the i-th path of the packet"""
    for nd, cn, ix, at in subscripts(G):
        c = N(val(nd.inst, cn))
        i = N(val(nd.inst, ix))
        if c[:1] == ("idx",) and N.field(c[1]) and i[0] == "L":
            w = nd.inst.where(nd.ref)
            if at or below(facts(N, MF.at(nd.i)), i, ("size", c)):
                ctx.ok("in-range", w, "stream")
            else:
                ctx.bad("in-range", w, "%s takes a stream of a packet without having established that the packet has that many streams" % m.fn, key="in-range|%s|stream" % m.fn)
    for nd in G.stmts():
        n = nd.n()
        if n["k"] != "CXXOperatorCallExpr" or n.get("op") != "=" or len(n["ch"]) != 3:
            continue
        l = N(val(nd.inst, n["ch"][1]))
        r = N(val(nd.inst, n["ch"][2]))
        if l[:1] != ("idx",):
            continue
        li = l[2]
        if li[0] not in ("L",):
            continue
        ris = set()

        def collect(x):
            if isinstance(x, tuple) and x:
                if x[0] == "idx" and len(x) == 3 and isinstance(x[2], tuple) and (sub(x[2], li) or not N.field(x[1])):
                    ris.add(x[2])
                for y in x:
                    collect(y)
        collect(r)
        for ri in ris:
            w = nd.inst.where(nd.ref)
            if ri == li:
                ctx.ok("stream", w, m.fn)
            else:
                ctx.bad("stream", w, "%s puts the data of one stream in the place of another one" % m.fn, key="stream|" + m.fn)


# ------------------------------------------------------------------------------------------------ video position
def video(P, ctx, rec, fl):
    caps = [f for f in fl if fl[f].replace("const ", "").startswith("cv::VideoCapture") and f in {x["name"] for x in P.recs[rec].get("fields", [])}]
    for cap in caps:
        cp = ("M", ("this",), cap)
        users = [m for m in P.methods_of(rec) if m.kind == "method" and any(n and n["k"] == "MemberExpr" and n.get("n") == cap for n in m.nodes)]
        cand = None
        for m in users:
            if READERS.get(last(m.fn)) == "input" and last(m.fn).startswith("getRaw"):
                G = Graph(P, m, dyn=rec, inline=lambda i, n, c: c.kind == "lambda" or c.rec == rec, maxdepth=4, drop_throw=True)
                cand = {x for nd in G.stmts() for x in lhs_written(nd.inst, nd.ref) if x[:2] == ("M", ("this",)) and fl.get(x[2]) == "unsigned long"}
        for m in users:
            G = Graph(P, m, dyn=rec, inline=lambda i, n, c: c.kind == "lambda" or c.rec == rec, maxdepth=4, drop_throw=True)
            isread = READERS.get(last(m.fn)) == "input" and last(m.fn).startswith("getRaw") and len(m.params) == 1
            if not cand or len(cand) != 1:
                # no position is remembered: each read has to be preceded by a positioning
                nxt = None
            else:
                nxt = next(iter(cand))
            position(P, ctx, m, G, cp, nxt, isread)


def lin(v, prm):
    """('P',k) / ('c',k) / None"""
    if v == prm:
        return ("P", 0)
    if v[:1] == ("c",):
        return ("c", v[1])
    if v[0] in ("b+", "op+", "b-", "op-") and len(v) == 3:
        a, b = lin(v[1], prm), lin(v[2], prm)
        if a and b and b[0] == "c":
            return (a[0], a[1] + b[1] if v[0].endswith("+") else a[1] - b[1])
        if a and b and a[0] == "c" and v[0].endswith("+"):
            return (b[0], a[1] + b[1])
    return None


def position(P, ctx, m, G, cp, nxt, isread):
    prm = ("P", G.root.id, m.params[0]["id"], m.params[0]["name"]) if m.params else None
    touched = any(nd.n()["k"] in CALLS and capcall(nd, cp) in ("set", ">>", "read", "grab", "open", "release") for nd in G.stmts())
    if not touched:
        return
    # state: (position, remembered) with symbols 'E' (entry, equal by invariant), ('P',k), ('c',k), 'closed', None
    start = ("E", "E")
    IN = {G.entry.i: start}
    order = G.rpo()

    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        p = a[0] if a[0] == b[0] else b[0] if a[0] == "closed" else a[0] if b[0] == "closed" else "?"
        q = a[1] if a[1] == b[1] else "?"
        # a closed reader has no position: its remembered index is free
        if q == "?" and a[0] == "closed":
            q = b[1]
        elif q == "?" and b[0] == "closed":
            q = a[1]
        return (p, q)

    def inc(x, k=1):
        return (x[0], x[1] + k) if isinstance(x, tuple) else "?"

    def ev(st, v):
        if nxt is not None and v == nxt:
            return st[1]
        r = lin(v, prm)
        if r is None and nxt is not None and v[0] in ("b+", "op+") and len(v) == 3 and v[1] == nxt and v[2][:1] == ("c",):
            return inc(st[1], v[2][1])
        return r if r is not None else "?"
    bad = {}

    def step(nd, st):
        if nd.kind != "stmt":
            return st
        n = nd.n()
        p, q = st
        k = capcall(nd, cp) if n["k"] in CALLS else None
        if k == "set":
            a = callee_args(n)[1]
            if const(nd.inst, a[0]) in (1, None):
                p = ev(st, val(nd.inst, a[1]))
        elif k in (">>", "read", "grab"):
            if isread:
                bad[nd.i] = None if p in (("P", 0), "closed") else p
            p = inc(p)
        elif k == "open":
            p = ("c", 0)
        elif k == "release":
            p = "closed"
        elif nxt is not None and nxt in lhs_written(nd.inst, nd.ref):
            if n.get("op") == "=":
                q = ev(st, val(nd.inst, n["ch"][-1]))
            elif n.get("op") in ("++", "post++"):
                q = inc(q)
            elif n.get("op") in ("--", "post--"):
                q = inc(q, -1)
            elif n.get("op") == "+=":
                v = val(nd.inst, n["ch"][-1])
                q = inc(q, v[1]) if v[:1] == ("c",) else "?"
            else:
                q = "?"
        return (p, q)

    def edge(st, c):
        if c is None or c[0] != "if":
            return st
        p, q = st
        for a in atoms(c[1], c[2], c[3]):
            if nxt is not None and a[0] == "==" and nxt in a[1:] and a[1] != a[2]:
                o = a[1] if a[2] == nxt else a[2]
                l = lin(o, prm)
                if l is not None:
                    if q == "E":
                        if p == "E":
                            p = l
                        q = l
                    elif q == "?":
                        q = l
            if a[0] == "false" and a[1][:1] == ("call",) and last(a[1][1]) == "isOpened" and a[1][2] == cp:
                p = "closed"
            if a[0] == "true" and a[1][:1] == ("call",) and last(a[1][1]) == "isOpened" and a[1][2] == cp and p == "closed":
                return None
        return (p, q)
    OUT = {}
    for _ in range(30):
        ch = False
        for u in order:
            if u == G.entry.i:
                s = start
            else:
                s = None
                for pr, c in G.nodes[u].pred:
                    if pr in OUT:
                        s = join(s, edge(OUT[pr], c))
                if s is None:
                    OUT.pop(u, None)
                    continue
            o = step(G.nodes[u], s)
            if OUT.get(u) != o:
                OUT[u] = o
                ch = True
        if not ch:
            break
    for i, b in bad.items():
        nd = G.nodes[i]
        w = nd.inst.where(nd.ref)
        if b is None:
            ctx.ok("position", w, "reader at the requested frame")
        else:
            ctx.bad("position", w, "%s reads a video frame without the reader being known to stand at the requested one" % m.fn, key="position|" + m.fn)
    ex = [G.exit.i] if hasattr(G, "exit") else [nd.i for nd in G.nodes if nd.kind == "exit" and nd.inst is G.root]
    for u in ex:
        if u in OUT and nxt is not None:
            p, q = OUT[u]
            if p == "closed" or p == q and p != "?":
                ctx.ok("position-kept", m.where(), "remembered frame index follows the reader")
            else:
                ctx.bad("position-kept", m.where(), "after %s the remembered frame index '%s' may differ from the position of the video reader, so a later request is answered with another frame" % (m.fn, nxt[2]), key="position-kept|" + m.fn)


def const(inst, nid):
    n = inst.fn.nodes[nid]
    if "c" in n:
        return n["c"]
    v = val(inst, nid)
    return v[1] if v[:1] == ("c",) else None


def capcall(nd, cp):
    n = nd.n()
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["ch"]) == 3 and path(nd.inst, n["ch"][1]) == cp:
        return ">>"
    if n["k"] == "CXXMemberCallExpr":
        m = nd.inst.fn.nodes[n["ch"][0]]
        if m["k"] == "MemberExpr" and m.get("ch") and path(nd.inst, m["ch"][0]) == cp:
            return last(n.get("fn", ""))
    return None


# ------------------------------------------------------------------------------------------------ redirections
GETTERS = {"getInput": "input", "getGT": "gt", "loadFeatures": "features"}


def bound(P, rec, field, tu):
    """functions that the constructors of rec bind as callback of a precacher field"""
    out = []
    for c in P.methods_of(rec):
        if c.kind != "ctor":
            continue
        for i in c.d.get("inits", []):
            if i.get("field") != field or i["init"] < 0:
                continue
            for x in c.walk(i["init"]):
                n = c.nodes[x]
                if n["k"] == "LambdaExpr" and n.get("lam") is not None:
                    f = P.lam.get((c.tu, n["lam"]))
                    if f is not None:
                        out.append(f)
                elif n["k"] == "DeclRefExpr" and n.get("fk"):
                    f = P.get(n["fk"], c.tu)
                    if f is not None and f.rec is not None and (f.rec == rec or f.rec in P.bases(rec)):
                        out.append(f)
    return out


def redirects(P, ctx):
    if LOADER not in P.recs:
        return
    done = set()
    for m in P.methods_of(LOADER):
        role = GETTERS.get(last(m.fn))
        if role is None or len(m.params) != 1:
            continue
        G = Graph(P, m, dyn=LOADER, inline=lambda i, n, c: c.kind == "lambda" or c.rec == LOADER, maxdepth=3, drop_throw=True)
        prm = ("P", G.root.id, m.params[0]["id"], m.params[0]["name"])
        for nd in G.stmts():
            n = nd.n()
            if n["k"] != "CXXMemberCallExpr" or last(n.get("fn", "")) != "getPacket":
                continue
            mm = nd.inst.fn.nodes[n["ch"][0]]
            o = path(nd.inst, mm["ch"][0]) if mm.get("ch") else None
            w = nd.inst.where(nd.ref)
            if not o or o[:2] != ("M", ("this",)):
                continue
            if val(nd.inst, n["ch"][1]) != prm:
                ctx.bad("asked", w, "%s asks its precacher for another packet than the requested one" % m.fn, key="asked|" + m.fn)
                continue
            fs = bound(P, LOADER, o[2], m.tu)
            if not fs:
                ctx.notes.append("the callback of '%s' was not resolved" % o[2])
            for f in fs:
                redirect(P, ctx, f, role, m, done)


ACCESS = {"getInputArray": "input", "getGTArray": "gt", "loadFeaturesArray": "features"}


def accessors(P, ctx):
    """array accessors unpack the packet of their role and of the requested index with the shapes announced for it"""
    for rec in sorted(P.derived(LOADER)):
        for m in P.methods_of(rec):
            role = ACCESS.get(last(m.fn))
            if role is None or not m.params or m.params[0]["t"] != "unsigned long":
                continue
            G = Graph(P, m, inline=lambda i, n, c: c.kind == "lambda" or c.rec == rec and last(c.fn) not in READERS and last(c.fn) not in GETTERS, maxdepth=3, drop_throw=True)
            prm = ("P", G.root.id, m.params[0]["id"], m.params[0]["name"])
            for nd in G.stmts():
                n = nd.n()
                nm = last(n.get("fn", "")) if n["k"] in CALLS else ""
                r = READERS.get(nm) or GETTERS.get(nm)
                if r is None or nm == "getInputName":
                    continue
                a = callee_args(n)[1]
                if len(a) != 1:
                    continue
                w = nd.inst.where(nd.ref)
                if r != role:
                    ctx.bad("role", w, "%s is answered from %s" % (m.fn, nm), key="role|%s|%s" % (m.fn, nm))
                elif val(nd.inst, a[0]) != prm:
                    ctx.bad("asked", w, "%s calls %s with another index than the requested one" % (m.fn, nm), key="asked|%s|%s" % (m.fn, nm))
                else:
                    ctx.ok("asked", w, nm)


def features(P, ctx):
    """features are saved and loaded under one name, which depends on the packet index"""
    used = {}
    for m in P.methods_of(LOADER):
        if last(m.fn) not in ("saveFeatures", "loadRawFeatures"):
            continue
        G = Graph(P, m, inline=lambda i, n, c: c.kind == "lambda" or c.rec == LOADER, maxdepth=3, drop_throw=True)
        prm = [("P", G.root.id, p["id"], p["name"]) for p in m.params if p["t"] == "unsigned long"]
        nms = {}
        for nd in G.stmts():
            n = nd.n()
            nm = last(n.get("fn", "")) if n["k"] in CALLS else ""
            if nm.startswith("get") and (nm.endswith("Name") or nm.endswith("Path")):
                a = callee_args(n)[1]
                nms[nm] = tuple(val(nd.inst, x) == (prm or [None])[0] for x in a)
        used[last(m.fn)] = (nms, m)
    if len(used) != 2:
        return
    (a, ma), (b, mb) = used["saveFeatures"], used["loadRawFeatures"]
    if set(a) != set(b):
        ctx.bad("feature-file", mb.where(), "features are saved under a name made of %s but loaded from one made of %s" % (", ".join(sorted(a)), ", ".join(sorted(b))), key="feature-file|names")
        return
    for nms, m in used.values():
        ok = any(v for v in nms.values()) and all(all(v) for v in nms.values())
        if ok:
            ctx.ok("feature-file", m.where(), ", ".join(sorted(nms)))
        else:
            ctx.bad("feature-file", m.where(), "%s does not use the file of the requested packet" % m.fn, key="feature-file|" + m.fn)


def redirect(P, ctx, f, role, getter, done):
    if (f.fk, role) in done:
        return
    done.add((f.fk, role))
    G = Graph(P, f, inline=lambda i, n, c: c.kind == "lambda" or last(c.fn) not in READERS and c.file == f.file, maxdepth=4, drop_throw=True)
    root = G.root
    if not f.params:
        return
    prm = ("P", root.id, f.params[0]["id"], f.params[0]["name"])
    roles = set()
    for nd in G.stmts():
        n = nd.n()
        nm = last(n.get("fn", "")) if n["k"] in CALLS else ""
        if nm not in READERS or nm in ("getInputName",):
            continue
        a = callee_args(n)[1]
        if len(a) != 1:
            continue
        w = nd.inst.where(nd.ref)
        roles.add(READERS[nm])
        if READERS[nm] != role:
            ctx.bad("role", w, "packets returned by %s come from %s" % (getter.fn, nm), key="role|%s|%s" % (getter.fn, nm))
        elif val(nd.inst, a[0]) != prm:
            ctx.bad("asked", w, "%s calls %s with another index than the requested one" % (f.fn, nm), key="asked|%s|%s" % (f.fn, nm))
        else:
            ctx.ok("asked", w, nm)
    if role == "features":
        return
    if role not in roles:
        ctx.bad("role", f.where(), "packets returned by %s do not come from its %s readers" % (getter.fn, role), key="role|" + getter.fn)
        return
    shapes(P, ctx, f, G, prm)


def raw_of(v, prm):
    return isinstance(v, tuple) and v[:1] == ("call",) and last(v[1]).startswith("getRaw")


def info_of(v, prm):
    """is v (part of) the announced info of the requested packet; returns the element index for arrays"""
    if isinstance(v, tuple) and v[:1] == ("call",) and last(v[1]) in ("getInputInfo", "getGTInfo", "getInputInfoArray", "getGTInfoArray") and len(v) == 4 and v[3] == prm:
        return "whole"
    if isinstance(v, tuple) and v[:1] == ("idx",) and info_of(v[1], prm) == "whole":
        return v[2]
    return None


def aspect(v, x, prm):
    """(what, 'packet'|'info', element) described by a compared value"""
    for w in ("type", "size"):
        if v in (("call", "cv::Mat::" + w, x), ("M", x, w)) or v[:1] == ("op()",) and len(v) == 2 and v[1] == ("M", x, w):
            return (w, "packet", None)
        if isinstance(v, tuple) and v:
            if v[0] in ("call",) and len(v) == 3 and last(v[1]).startswith("operator") and isinstance(v[2], tuple):
                v2 = v[2]
            elif v[0] == "op()" and len(v) == 2:
                v2 = v[1]
            else:
                v2 = v
            if isinstance(v2, tuple) and v2[:1] == ("M",) and v2[-1] == w and info_of(v2[1], prm) is not None:
                return (w, "info", info_of(v2[1], prm))
    return None


def shapes(P, ctx, f, G, prm):
    MF = MustFacts(G)
    raws = {}
    for nd in G.stmts():
        n = nd.n()
        if n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d.get("init", -1) >= 0 and raw_of(val(nd.inst, d["init"]), prm):
                    raws[("L", nd.inst.id, d["id"], d["name"])] = "vector" in d.get("t", "")
        elif n.get("op") == "=" and n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and len(n["ch"]) >= 2 and raw_of(val(nd.inst, n["ch"][-1]), prm):
            p = path(nd.inst, n["ch"][-2])
            if p[0] == "L":
                raws[p] = "vector" in nd.inst.fn.nodes[n["ch"][-2]].get("t", "")
    rets = [nd for nd in G.stmts() if nd.n()["k"] == "ReturnStmt" and nd.inst is G.root and nd.n().get("ch")]
    for x, arr in sorted(raws.items(), key=repr):
        used = [r for r in rets if sub(val(r.inst, r.n()["ch"][0]), x) or sub(path(r.inst, r.n()["ch"][0]), x)]
        if not used:
            ctx.notes.append("%s: the packet loaded into '%s' is not returned directly" % (f.fn, x[3]))
            continue
        track(ctx, f, G, MF, prm, x, arr, used)


def track(ctx, f, G, MF, prm, x, arr, used):
    order = G.rpo()
    OUT = {}
    loops = [0]

    def atoms_on(c):
        return edge_atoms(c, G)

    def same(u, a, b):
        return a == b or any(t[0] == "==" and set(t[1:]) == {a, b} for t in MF.at(u))

    def edge(u, st, c):
        if c is None or c[0] != "if" or not st:
            return st
        st = set(st)
        ats = atoms_on(c)
        els = {None}
        if arr:
            for a in ats:
                if a[0] in ("<", "!=") and len(a) == 3:
                    for i, b in ((a[1], a[2]), (a[2], a[1])):
                        if i[0] == "L" and same(u, b, ("call", "std::vector<cv::Mat>::size", x)) and (a[0] == "!=" or i == a[1]):
                            loops[0] += 1
                            st |= {("el", "type", i), ("el", "size", i)}
                if a[0] in ("<=", "==") and len(a) == 3:
                    for i, b in ((a[2], a[1]), (a[1], a[2])):
                        if i[0] == "L" and same(u, b, ("call", "std::vector<cv::Mat>::size", x)) and (a[0] == "==" or i == a[2]):
                            for w in ("type", "size"):
                                if ("el", w, i) not in st:
                                    st.discard(("all", w))
        for a in ats:
            if a[0] == "==":
                els = [t for t in st if t[0] in ("el", "one")]
                for t in els:
                    y = ("idx", x, t[2]) if t[0] == "el" else x
                    p, q = aspect(a[1], y, prm), aspect(a[2], y, prm)
                    for p, q in ((p, q), (q, p)):
                        if p and q and p[0] == q[0] == t[1] and p[1] == "packet" and q[1] == "info" and q[2] == (t[2] if t[0] == "el" else "whole"):
                            st.discard(t)
            if a[0] == "true" and a[1][:1] == ("call",) and last(a[1][1]) == "empty" and len(a[1]) == 3 and a[1][2][:1] == ("M",) and a[1][2][-1] == "size":
                e = info_of(a[1][2][1], prm)
                for t in list(st):
                    y = ("idx", x, t[2]) if t[0] == "el" else x
                    if (t[0] == "el" and e == t[2] or t[0] == "one" and e == "whole") and ("true", ("call", "cv::Mat::empty", y)) in MF.at(u):
                        st.discard(t)
        return frozenset(st)

    def step(nd, st):
        if nd.kind != "stmt":
            return st
        n = nd.n()
        w = list(lhs_written(nd.inst, nd.ref))
        if n["k"] == "DeclStmt":
            w += [("L", nd.inst.id, d["id"], d["name"]) for d in n["decls"]]
        nm = last(n.get("fn", "")) if n["k"] in CALLS else ""
        if n["k"] == "CXXMemberCallExpr" and nm in ("operator[]", "at", "size", "begin", "end", "empty", "data"):
            return st
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("[]",):
            return st
        for p in w:
            if p == x:
                st = frozenset(st | ({("all", "type"), ("all", "size")} if arr else {("one", "type", None), ("one", "size", None)}))
            elif arr and p[:1] == ("idx",) and p[1] == x:
                st = frozenset(st | {("el", "type", p[2]), ("el", "size", p[2])})
        return st
    for _ in range(40):
        ch = False
        for u in order:
            if u == G.entry.i:
                s = frozenset()
            else:
                s = None
                for pr, c in G.nodes[u].pred:
                    if pr in OUT:
                        e = edge(pr, OUT[pr], c)
                        s = e if s is None else s | e
                if s is None:
                    continue
            o = step(G.nodes[u], s)
            if OUT.get(u) != o:
                OUT[u] = o
                ch = True
        if not ch:
            break
    for r in used:
        st = OUT.get(r.i)
        if st is None:
            continue
        w = r.inst.where(r.ref)
        miss = sorted({t[1] for t in st if t[0] in ("all", "one")} | ({t[1] for t in st if t[0] == "el"} if not arr or not loops[0] else set()))
        if not miss:
            ctx.ok("shape", w, f.fn)
        elif arr and not loops[0] and any(nd.n()["k"] in CALLS and last(nd.n().get("fn", "")) in ("begin", "for_each", "all_of") and sub(val(nd.inst, nd.ref), x) for nd in G.stmts()):
            ctx.notes.append("%s: the loop over the loaded streams was not resolved" % f.fn)
        else:
            ctx.bad("shape", w, "%s may return a packet whose %s is not the announced one" % (f.fn, " and ".join(miss)), key="shape|%s|%s" % (f.fn, "array" if arr else "single"))


# ------------------------------------------------------------------------------------------------ D03
INDEXED = {"getGT", "getGTArray", "getGTROI", "getGTROIArray", "getInput", "getInputArray", "getInputROI", "getInputROIArray", "countOutput",
           "processOutput", "saveOutput", "saveOutputArray", "getOutputName", "push", "getGTInfo", "getGTInfoArray", "getInputInfo", "getInputInfoArray", "queue"}
CONSUMERS = {"push", "processOutput", "getColoredMask", "getColoredMaskArray", "saveOutput", "saveOutputArray"}
SOURCES = {"getGT": "gt", "getGTArray": "gt", "getGTROI": "roi", "getGTROIArray": "roi", "getInput": "input", "getInputArray": "input",
           "getInputROI": "input region of interest", "getInputROIArray": "input region of interest"}


def index_param(m):
    ix = [p for p in m.params if p["t"] in ("unsigned long", "const unsigned long")]
    return ix[0] if len(ix) == 1 and ix[0]["name"] else None


def d03(P, ctx):
    seen = set()
    for m in P.all(False):
        if last(m.fn) not in CONSUMERS or m.kind != "method" or "/datasets/" not in m.file or m.rec is None:
            continue
        ip = index_param(m)
        if ip is None or (m.file, m.line) in seen and last(m.fn) != "push":
            continue
        seen.add((m.file, m.line))
        G = Graph(P, m, inline=lambda i, n, c: c.kind == "lambda" or c.rec == m.rec and last(c.fn) not in INDEXED, maxdepth=3, drop_throw=True)
        prm = ("P", G.root.id, ip["id"], ip["name"])
        for nd in G.stmts():
            n = nd.n()
            if n["k"] != "CXXMemberCallExpr" or last(n.get("fn", "")) not in INDEXED:
                continue
            a = callee_args(n)[1]
            k = [i for i, t in enumerate(n.get("pt", [])) if t in ("unsigned long", "const unsigned long")]
            if len(k) != 1 or k[0] >= len(a):
                continue
            v = val(nd.inst, a[k[0]])
            w = nd.inst.where(nd.ref)
            nm = last(n["fn"])
            if v == prm:
                ctx.ok("same-index", w, nm)
            else:
                ctx.bad("same-index", w, "%s passes another index to %s than the one the output was given for" % (m.fn, nm), key="same-index|%s|%s" % (m.fn, nm))
        roles(P, ctx, m, G)
        if last(m.fn).startswith("save"):
            for nd in G.stmts():
                n = nd.n()
                if n["k"] in CALLS and last(n.get("fn", "")) in SOURCES:
                    r = SOURCES[last(n["fn"])]
                    if r.startswith("input"):
                        ctx.bad("reference", nd.inst.where(nd.ref), "%s uses the %s where the ground truth region of interest is expected" % (m.fn, r), key="reference|%s|save" % m.fn)
                    else:
                        ctx.ok("reference", nd.inst.where(nd.ref), r)
        if last(m.fn) == "push":
            pushed(P, ctx, m, G)
        if last(m.fn) == "processOutput":
            evaluated(P, ctx, m, G)


def source_of(v, out):
    """which loader accessors a value comes from"""
    if isinstance(v, tuple) and v:
        if v[0] == "call" and len(v) > 1 and isinstance(v[1], str) and last(v[1]) in SOURCES:
            out.add(SOURCES[last(v[1])])
            return
        if v[0] == "call" and len(v) > 1 and isinstance(v[1], str) and last(v[1]) in ("empty", "size"):
            return
        for x in v:
            source_of(x, out)


def elements(v, out):
    """(container source, index) of the element selections in v"""
    if isinstance(v, tuple) and v:
        if v[0] == "idx" and len(v) == 3:
            out.add(v[2])
        for x in v:
            elements(x, out)


def roles(P, ctx, m, G):
    for nd in G.stmts():
        n = nd.n()
        if n["k"] not in CALLS or last(n.get("fn", "")) not in ("accumulate", "getColoredMask"):
            continue
        a = callee_args(n)[1]
        if len(a) < 3:
            continue
        w = nd.inst.where(nd.ref)
        vs = [val(nd.inst, x) for x in a]
        want = [(1, "gt"), (2 if "StereoDispErrors" not in n["fn"] or last(n["fn"]) == "accumulate" else 3, "roi")]
        for k, r in want:
            if k >= len(a):
                continue
            s = set()
            source_of(vs[k], s)
            if s == {r}:
                ctx.ok("reference", w, "%s from the %s" % (last(n["fn"]), r))
            elif s:
                ctx.bad("reference", w, "%s gives %s the %s where the %s is expected" % (m.fn, last(n["fn"]), "/".join(sorted(s)), {"gt": "ground truth", "roi": "ground truth region of interest"}[r]), key="reference|%s|%s" % (m.fn, r))
        s0 = set()
        source_of(vs[0], s0)
        if s0:
            ctx.bad("reference", w, "%s evaluates the %s instead of the output" % (m.fn, "/".join(sorted(s0))), key="reference|%s|out" % m.fn)
        ix = set()
        for v in vs:
            elements(v, ix)
        if n["k"] == "CXXMemberCallExpr":
            mm = nd.inst.fn.nodes[n["ch"][0]]
            if mm["k"] == "MemberExpr" and mm.get("ch"):
                elements(val(nd.inst, mm["ch"][0]), ix)
        if len(ix) > 1:
            ctx.bad("same-stream", w, "%s compares the output of one stream with the reference of another" % m.fn, key="same-stream|" + m.fn)
        elif ix:
            ctx.ok("same-stream", w, m.fn)


def must_call(G, pred):
    """nodes from which the exit can be reached without passing a call satisfying pred: is the entry among them"""
    ex = [nd.i for nd in G.nodes if nd.kind == "exit" and nd.inst is G.root] or [G.exit.i]
    seen = set(ex)
    wl = list(ex)
    while wl:
        u = wl.pop()
        nd = G.nodes[u]
        if u == G.entry.i:
            return False
        if nd.kind == "stmt" and nd.n()["k"] in CALLS and pred(nd):
            continue
        for p, c in nd.pred:
            if p not in seen:
                seen.add(p)
                wl.append(p)
    return True


def pushed(P, ctx, m, G):
    outs = [p for p in m.params if "cv::Mat" in p["t"]]
    calls = {last(nd.n().get("fn", "")) for nd in G.stmts() if nd.n()["k"] in CALLS}
    if "push" in calls:
        if must_call(G, lambda nd: last(nd.n().get("fn", "")) == "push"):
            ctx.ok("handled", m.where(), "delegated")
            return
    need = ["countOutput"] + (["processOutput"] if outs else [])
    for q in need:
        if must_call(G, lambda nd: last(nd.n().get("fn", "")) == q):
            ctx.ok("handled", m.where(), q)
        else:
            ctx.bad("handled", m.where(), "a pushed output may leave %s without %s having been called" % (m.fn, q), key="handled|%s|%s" % (m.fn, q))
    if outs:
        # saved on every path where saving is on and the output is not empty
        ok = must_save(G, {("P", G.root.id, p["id"], p["name"]) for p in m.params})
        if ok:
            ctx.ok("handled", m.where(), "saved")
        else:
            ctx.bad("handled", m.where(), "a non-empty output may leave %s without being saved although saving is on" % m.fn, key="handled|%s|save" % m.fn)


def excused(a, out):
    """the fact says saving is off or the pushed output is empty"""
    if a[0] == "or":
        return all(any(excused(x, out) for x in arm) for arm in a[1:])
    if a[0] in ("true", "false") and a[1][:1] == ("call",):
        return a[0] == "false" and last(a[1][1]) == "isSavingOutput" or a[0] == "true" and last(a[1][1]) == "empty" and a[1][2] in out
    return False


def must_save(G, out):
    ex = [nd.i for nd in G.nodes if nd.kind == "exit" and nd.inst is G.root] or [G.exit.i]
    seen = set(ex)
    wl = list(ex)
    while wl:
        u = wl.pop()
        nd = G.nodes[u]
        if u == G.entry.i:
            return False
        if nd.kind == "stmt" and nd.n()["k"] in CALLS and last(nd.n().get("fn", "")) in ("saveOutput", "saveOutputArray"):
            continue
        for p, c in nd.pred:
            if c is not None and c[0] == "if":
                ok = any(excused(a, out) for a in edge_atoms(c, G))
                if ok:
                    continue
            if p not in seen:
                seen.add(p)
                wl.append(p)
    return True


def evaluated(P, ctx, m, G):
    """with evaluation on, every output (stream) reaches accumulate"""
    acc = [nd for nd in G.stmts() if nd.n()["k"] in CALLS and last(nd.n().get("fn", "")) == "accumulate"]
    if not acc:
        return
    ex = [nd.i for nd in G.nodes if nd.kind == "exit" and nd.inst is G.root] or [G.exit.i]
    ai = {nd.i for nd in acc}
    ix = set()
    for nd in acc:
        for x in callee_args(nd.n())[1]:
            elements(val(nd.inst, x), ix)
    lv = set()
    for v in ix:
        leaves_l(v, lv)
    loops = {}
    for v in lv:
        inits = [val(nd.inst, d["init"]) for nd in G.stmts() if nd.n()["k"] == "DeclStmt" for d in nd.n()["decls"] if ("L", nd.inst.id, d["id"], d["name"]) == v and d.get("init", -1) >= 0]
        steps = [nd for nd in G.stmts() if v in lhs_written(nd.inst, nd.ref) and nd.n()["k"] != "DeclStmt"]
        if not steps:
            continue
        one = lambda nd, a, b: nd.n().get("op") in (a, "post" + a) or nd.n().get("op") == b and val(nd.inst, nd.n()["ch"][1]) == ("c", 1)
        d = None
        if inits and all(x == ("c", 0) for x in inits) and all(one(nd, "++", "+=") for nd in steps):
            d = "up"
        elif inits and all(is_count(x) for x in inits) and all(one(nd, "--", "-=") for nd in steps):
            d = "down"
        loops[v] = (d, {nd.i for nd in steps})
    seen = set(ex)
    wl = list(ex)
    bad = False
    while wl and not bad:
        u = wl.pop()
        if u == G.entry.i:
            bad = True
            break
        if u in ai:
            continue
        for p, c in G.nodes[u].pred:
            if c is not None and c[0] == "if":
                skip = False
                for a in edge_atoms(c, G):
                    if a[0] == "false" and a[1][:1] == ("call",) and last(a[1][1]) == "isEvaluating":
                        skip = True
                    # loop left because every stream was handled
                    if a[0] in ("<=", "==") and len(a) == 3:
                        for x, y in ((a[1], a[2]), (a[2], a[1])):
                            for v, (d, st) in loops.items():
                                if sub(x, v) and (d != "down" and is_count(y) or d == "down" and y == ("c", 0)):
                                    skip = True
                            if x[:1] == ("L",) and y[:1] == ("L",) and x[3].startswith("__begin") and y[3].startswith("__end"):
                                skip = True
                if skip:
                    continue
            if p not in seen:
                seen.add(p)
                wl.append(p)
    if bad:
        ctx.bad("evaluated", m.where(), "with evaluation on, %s may return without having evaluated the output" % m.fn, key="evaluated|" + m.fn)
    else:
        ctx.ok("evaluated", m.where(), m.fn)
    # the stream loop covers every stream: its variable starts at one end, steps by one, and no step leaves out the evaluation
    for v, (d, st) in sorted(loops.items(), key=repr):
        good = d is not None
        seen = set()
        wl = [p for u in st for p, c in G.nodes[u].pred]
        while wl and good:
            u = wl.pop()
            if u in seen or u in ai:
                continue
            seen.add(u)
            nd = G.nodes[u]
            decl = nd.kind == "stmt" and nd.n()["k"] == "DeclStmt" and any(("L", nd.inst.id, x["id"], x["name"]) == v for x in nd.n()["decls"])
            if u in st or decl and d == "up":
                good = False
            if decl:
                continue
            wl += [p for p, c in nd.pred]
        if good:
            ctx.ok("every-stream", m.where(), v[3])
        else:
            ctx.bad("every-stream", m.where(), "%s does not evaluate every stream (start, step or skipped steps of '%s')" % (m.fn, v[3]), key="every-stream|" + m.fn)


def leaves_l(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == "L":
            out.add(v)
            return
        for x in v:
            leaves_l(x, out)


def is_count(v):
    return isinstance(v, tuple) and v[:1] == ("call",) and last(v[1]) in ("size", "getOutputStreamCount", "getGTStreamCount")
