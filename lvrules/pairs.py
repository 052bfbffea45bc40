"""V06: the parts of a background sample (colour and texture) are always replaced together."""
import re
from .flow import *
from .ratexp import *
from . import metrics as M
from . import video as V
from . import units as U
from .units import CN, WIDTH, Access
from .sampling import const_of, trat

W = ("W",)


def sample_fields(P, rec):
    """fields of the class (and its bases) that hold one matrix per background sample"""
    out = []
    for r in [rec] + list(P.bases(rec)):
        for f in P.recs.get(r, {}).get("fields", []):
            if re.match(r"(std::)?vector<cv::Mat\b", f["t"].replace("std::__1::", "std::")) or "vector<cv::Mat" in f["t"] and "vector<std::vector" not in f["t"]:
                out.append(f["n"] if "n" in f else f["name"])
    return out


def root_of(b):
    """(field, sample index term) of a matrix path m_vo...[s]"""
    if b[0] == "idx" and b[1][0] == "M" and b[1][1] == ("this",):
        return b[1][2], b[2]
    if b[0] == "call" and last(b[1]).split("<")[0] == "at" and len(b) > 3 and b[2][0] == "M" and b[2][1] == ("this",):
        return b[2][2], b[3]
    return None


class Run:
    def __init__(self, P, rec, f, G, T, chs, fieldexp, flds):
        self.P, self.rec, self.f, self.G, self.T, self.chs, self.fieldexp, self.flds = P, rec, f, G, T, chs, fieldexp, flds
        self.byid = {i.id: i for i in G.insts}
        self.reads = {}      # (inst id, nid) -> [(matrix, mt, Access, FT, cns)]
        self.writes = []     # (field, sample, mt, Access-like, FT, cns, inst, nid of the statement, rhs nid)
        self.open = []       # uses of the sample fields that could not be resolved
        self.scan()

    # ---- identity of an index expression: copies of variables are followed, expressions are not
    def canon(self, t, d=0):
        if not isinstance(t, tuple) or not t or d > 12:
            return t
        if t[0] == "L" and len(t) == 4:
            i = self.byid.get(t[1])
            if i is not None:
                b = i.bind.get(t[2])
                if b is not None and t[2] not in mutated(i.fn):
                    return self.canon(path(b[0], b[1]), d + 1)
                dec = i.decl.get(t[2])
                if dec is not None and dec.get("init", -1) >= 0 and t[2] not in mutated(i.fn) and not dec.get("static"):
                    j = M.strip(i.fn, dec["init"])
                    if i.fn.nodes[j]["k"] == "DeclRefExpr":
                        return self.canon(path(i, j), d + 1)
            return t
        return tuple(self.canon(x, d + 1) if isinstance(x, tuple) else x for x in t)

    def scan(self):
        G = self.G
        for nd, typed, b, mt, facts, FT, MF in U.matrix_uses(self.P, self.rec, self.f, G, self.T):
            r = root_of(b)
            mine = r is not None and r[0] in self.flds
            cn = U.channel_fact(facts | U.local_facts(G, nd.inst, nd.ref), self.chs)
            acc, esc = [], []
            if mt is None and not mine:
                mt = self.guess(nd, typed)
            if mt is None:
                if mine:
                    self.open.append((nd.inst, nd.ref))
                continue
            if typed:
                n = nd.n()
                isptr = last(n["fn"]).startswith("ptr")
                _, a = callee_args(n)
                a = [x for x in a if nd.inst.fn.nodes[x]["k"] != "CXXDefaultArgExpr"]
                E = Rat.c(WIDTH[mt[0]]) * mt[1]
                et = U.csize(n.get("t", "").replace("const ", "").strip(" &*"))
                if et is None or not 1 <= len(a) <= 2:
                    if mine:
                        self.open.append((nd.inst, nd.ref))
                    continue
                pt = [t for t in n.get("pt", [])]
                if pt and "Point" in pt[0]:
                    v = val(nd.inst, a[0])
                    if v[0] == "new" and len(v[2]) == 2:
                        off = (trat(v[2][1]) * Rat.leaf(W) + trat(v[2][0])) * E
                    else:
                        off = (Rat.leaf(("M", v, "y")) * Rat.leaf(W) + Rat.leaf(("M", v, "x"))) * E
                elif len(a) == 1 and not isptr:
                    off = rat(nd.inst, a[0]) * E
                else:
                    off = rat(nd.inst, a[0]) * Rat.leaf(W) * E
                    if len(a) == 2:
                        off = off + rat(nd.inst, a[1]) * E
                if isptr:
                    w = et[0] * et[1]
                    U.climb(G, nd.inst, nd.ref, off, (w, et[2]), acc, esc)
                else:
                    acc.append(Access(nd.inst, nd.ref, off, et[0] * et[1], et[2]))
            else:
                U.climb(G, nd.inst, nd.ref, Rat.c(0), (1, False), acc, esc)
            for a in acc:
                c2 = cn
                if a.nid != nd.ref or a.inst is not nd.inst:
                    c2 = U.channel_fact(facts | U.at_access(G, MF, a) | U.local_facts(G, a.inst, a.nid) | U.local_facts(G, nd.inst, nd.ref), self.chs)
                self.reads.setdefault((a.inst.id, a.nid), []).append((b, mt, a, FT, c2))
                if mine:
                    self.uses(a.inst, a.nid, lambda inst, nid, rhs, ch, b=b, r=r, mt=mt, a=a, FT=FT, c2=c2: self.writes.append(
                        (r[0], self.canon(r[1]), mt, a, FT, c2, inst, nid, rhs, ch)))
            if mine:
                for i, e in esc:
                    if self.may_write(i, e):
                        self.open.append((i, e))

    def guess(self, nd, typed):
        """element type of an observed image that is not declared in the class: that of the typed access, or of the samples"""
        if typed:
            et = U.csize(nd.n().get("t", "").replace("const ", "").strip(" &*"))
            if et is not None and not et[2] and et[0] in (1, 2):
                return (0 if et[0] == 1 else 2, Rat.c(et[1]))
            return None
        t = self.T.get(("idx", ("M", ("this",), self.flds[0]), ("c", 0)))
        return t if t is not None and t[0] == 0 else None

    def may_write(self, inst, nid):
        """can a pointer that ends in this construct be written through (an argument of const pointer type cannot)"""
        n = inst.fn.nodes[nid]
        if n["k"] in CALLS:
            return any("*" in t and not t.startswith("const ") for t in n.get("pt", [])) or not n.get("pt")
        if n["k"] in ("ReturnStmt", "DeclStmt", "BinaryOperator", "InitListExpr"):
            return True
        t = n.get("t", "")
        return "*" in t and not t.startswith("const ")

    def uses(self, inst, nid, emit, d=0, ch=None):
        """report every write made through the lvalue nid"""
        fn = inst.fn
        par = fn.parents()
        for dec in inst.decl.values():
            if dec.get("ref") and dec.get("init", -1) >= 0 and dec["init"] == nid and d < 6:
                if dec.get("t", "").startswith("const "):
                    return
                for u, m in enumerate(fn.nodes):
                    if m and m["k"] == "DeclRefExpr" and m.get("d") == dec["id"]:
                        self.uses(inst, u, emit, d + 1, ch)
                for li in self.G.insts:
                    if li is not inst and li.defenv is inst:
                        for u, m in enumerate(li.fn.nodes):
                            if m and m["k"] == "DeclRefExpr" and m.get("d") == dec["id"]:
                                self.uses(li, u, emit, d + 1, ch)
                return
        if nid not in par:
            return
        j = par[nid]
        n = fn.nodes[j]
        k = n["k"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            return self.uses(inst, j, emit, d + 1, ch)
        if k in CASTS:
            if n.get("ck") == "LValueToRValue" or n.get("cast") == "LValueToRValue":
                return
            return self.uses(inst, j, emit, d + 1, ch) if d < 12 else None
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
            if n["ch"][0] == nid:
                emit(inst, j, n["ch"][1] if n["op"] == "=" else None, ch)
            return
        if k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
            emit(inst, j, None, ch)
            return
        if k == "UnaryOperator" and n.get("op") == "&":
            out, esc = [], []
            return
        if k == "CXXOperatorCallExpr":
            if n.get("op") in ASSIGN and len(n["ch"]) > 2 and n["ch"][1] == nid:
                emit(inst, j, n["ch"][2] if n["op"] == "=" else None, ch)
                return
            if n.get("op") in ("[]", "()") and len(n["ch"]) > 2 and n["ch"][1] == nid:
                return self.uses(inst, j, emit, d + 1, (inst, n["ch"][2]))
        if k in CALLS:
            _, args = callee_args(n)
            for a, t in zip(args, n.get("pt", [])):
                if a == nid and t.endswith("&") and not t.startswith("const ") and not t.endswith("&&"):
                    ci = inst.calls.get(j)
                    if ci is None:
                        emit(inst, j, None, ch)
                        return
                    for p, an in zip(ci.fn.params, args):
                        if an == nid:
                            for u, m in enumerate(ci.fn.nodes):
                                if m and m["k"] == "DeclRefExpr" and m.get("d") == p["id"]:
                                    self.uses(ci, u, emit, d + 1, ch)
            return
        return

    # ---- pixel and channel of an access, for images of c channels
    def locate(self, mt, a, FT, c, ch=None):
        """(pixel normal form, channel: 'all' | ('c', k) | ('v', leaf), loop) or None"""
        T, fieldexp = self.T, self.fieldexp

        def sub(l, d=0):
            if l == CN:
                return Rat.c(c)
            st = U.is_step(l)
            if st is not None:
                t = T.get(st[0]) or FT.get(st[0])
                if t is None:
                    return None
                E = Rat.c(WIDTH[t[0]]) * t[1].subst_rat(sub)
                return E if st[1] == 1 else E * Rat.leaf(W)
            if l[0] == "call" and last(l[1]) == "channels":
                k = T.chan(l)
                return k.subst_rat(sub) if k is not None else None
            if l[0] == "M" and l[2] in fieldexp and d < 3:
                return fieldexp[l[2]][0].subst_rat(lambda x: sub(x, d + 1))
            if l[0] == "M" and l[2] in ("cols", "width") or l[0] == "cols":
                return Rat.leaf(W)
            return None
        off = a.off.subst_rat(sub)
        cnr = const_of(mt[1].subst_rat(sub))
        if off.d != ONE or cnr is None:
            return None
        e1 = WIDTH[mt[0]]
        cn = int(cnr)
        E = e1 * cn
        pix, chan = {}, ("c", 0)
        for m, co in off.n.items():
            if m == ():
                if co % e1:
                    return None
                q, r = divmod(int(co) // e1, cn)
                if q:
                    pix[()] = pix.get((), 0) + q
                if r:
                    chan = ("c", r) if chan == ("c", 0) else None
                continue
            if len(m) == 1 and m[0][0] in ("L", "P") and abs(co) == e1:
                r = U.channel_var(a, m[0], c, T)
                if r is not None and r[0] == 0 and r[1] == cn and r[2] == 1:
                    chan = ("v", m[0]) if chan == ("c", 0) else None
                    continue
                if r is not None and e1 != E and r[0] is not None and r[1] is not None:
                    chan = ("part", m[0], r[0], r[1]) if chan == ("c", 0) else None
                    continue
            if co % E:
                return None
            pix[m] = pix.get(m, 0) + co // E
        if chan is None:
            return None
        if cn == 1 and ch is None and a.w == e1:
            chan = "all" if chan == ("c", 0) else chan
        elif a.w == E:
            chan = "all" if chan == ("c", 0) else None
            if ch is not None:
                v = val(ch[0], ch[1])
                if v[0] == "c":
                    chan = ("c", v[1])
                elif v[0] in ("L", "P"):
                    r = U.channel_var(Access(ch[0], ch[1], None, 0, False), v, c, T)
                    chan = ("v", v) if r is not None and r[:2] == (0, cn) and r[2] == 1 else None
                else:
                    chan = None
        elif ch is not None or a.w != e1:
            return None
        if chan is None:
            return None
        return self.lut(Rat(pix)), chan

    def lut(self, r):
        """coordinates looked up in the per-pixel table name the pixel they belong to"""
        xs = {}
        for m in r.n:
            for l in m:
                k = coord(l)
                if k:
                    xs.setdefault(k[0], {})[k[1]] = l
        for p, d in xs.items():
            if set(d) == {"x", "y"}:
                y, x = r.n.get(tuple(sorted((W, d["y"]), key=repr))), r.n.get((d["x"],))
                y = next((co for m, co in r.n.items() if set(m) == {W, d["y"]} and len(m) == 2), None)
                if y == 1 and x == 1:
                    n = {m: co for m, co in r.n.items() if set(m) != {W, d["y"]} and m != (d["x"],)}
                    q = trat(p)
                    return self.lut(Rat(n) + q)
        return r


def coord(l):
    if l[0] == "M" and l[1][0] == "idx" and re.search(r"Coord_?([XY])$", l[2]):
        return l[1][2], l[2][-1].lower()
    return None


def vars_in(t, out):
    if isinstance(t, Rat):
        for l in t.leaves():
            vars_in(l, out)
    elif isinstance(t, tuple):
        if t and t[0] in ("L", "P") and len(t) == 4:
            out.add(t)
        for x in t:
            if isinstance(x, tuple):
                vars_in(x, out)
    return out


def impure(t):
    return any(l[0] == "call" and last(l[1]) in ("rand", "rand_r", "random", "operator()", "uniform", "next") for l in leaves(t)) if isinstance(t, tuple) else False


def stmt_node(G, inst, nid):
    if not hasattr(G, "_bynid"):
        G._bynid = {}
        for nd in G.stmts():
            G._bynid.setdefault((nd.inst.id, nd.ref), nd.i)
    par, i = inst.fn.parents(), nid
    while True:
        u = G._bynid.get((inst.id, i))
        if u is not None:
            return u
        if i not in par:
            return None
        i = par[i]


def loop_of(G, inst, var):
    """graph node of the condition of the counting loop over var, and the loop"""
    while inst is not None:
        for lp, n in enumerate(inst.fn.nodes):
            if n and n["k"] in ("ForStmt", "WhileStmt"):
                r = M.loop_range(inst.fn, lp)
                if r and r[0] == var[2]:
                    c = n["parts"]["cond"]
                    for nd in G.nodes:
                        if any(e and e[0] == "if" and e[1] is inst and M.strip(inst.fn, e[2]) == M.strip(inst.fn, c) for _, e in nd.succ):
                            return nd.i, inst, lp
        inst = inst.defenv if inst.defenv is not None else inst.caller
    return None


def every_iteration(G, head, marks):
    """'' when each iteration of the loop passes one of the marks and the loop is only left through its condition; else what goes wrong"""
    tru = [v for v, e in G.nodes[head].succ if e and e[3]]
    if not tru:
        return "?"
    seen, st = set(), list(tru)
    while st:
        u = st.pop()
        if u in seen or u == head:
            continue
        seen.add(u)
        st += [v for v, _ in G.nodes[u].succ]
    back, st = set(), [head]
    while st:
        u = st.pop()
        for p, _ in G.nodes[u].pred:
            if p not in back and p in seen:
                back.add(p)
                st.append(p)
    body = seen & back
    # marks inside?
    skip, st = set(), list(tru)
    while st:
        u = st.pop()
        if u in skip or u in marks:
            continue
        if u == head:
            return "skipped"
        if u not in body:
            return "left early"
        skip.add(u)
        st += [v for v, _ in G.nodes[u].succ]
    for u in body:
        for v, _ in G.nodes[u].succ:
            if v != head and v not in body:
                return "left early"
    return ""


def v06(P, ctx):
    done = set()
    for rec in V.leaf_classes(P):
        if "GLSL" in rec:
            continue
        flds = sample_fields(P, rec)
        if len(flds) < 2:
            continue
        fns = []
        for nm in ("initialize", "apply", "refreshModel"):
            for r in [rec] + list(P.bases(rec)):
                c = [f for f in P.methods_of(r) if last(f.fn) == nm and f.cfg and not (nm == "apply" and not any("InputArray" in p["t"] for p in f.params))]
                if c:
                    fns += c
                    break
        graphs = [V.bgraph(P, f, rec) for f in fns]
        T = U.Types(P, rec)
        for _ in (0, 1):
            T.bad = set()
            for G in graphs:
                T.scan(G)
        chs = U.channels_set(P, rec)
        if not any("m_nImgChannels" in M.fields(P, r) for r in [rec] + list(P.bases(rec))):
            chs = {1}
        fieldexp = U.field_defs(graphs)
        for f, G in zip(fns, graphs):
            R = Run(P, rec, f, G, T, chs, fieldexp, flds)
            check(ctx, R, done)
            described(ctx, R, done)


def check(ctx, R, done):
    G = R.G
    name = "%s::%s" % (R.rec.split("<")[0].rstrip("_"), last(R.f.fn))
    if not R.writes and not R.open:
        return
    if R.open:
        ctx.stats["unresolved"] = ctx.stats.get("unresolved", 0) + 1
        ctx.notes.append("%s: a use of the sample matrices is not resolved at %s" % (name, R.open[0][0].where(R.open[0][1])))
        return
    fi = {x: i for i, x in enumerate(R.flds)}
    for c in sorted(R.chs):
        ev, lifted, ok = [], {}, True
        for w in R.writes:
            fld, s, mt, a, FT, cns, inst, nid, rhs, ch = w
            if c not in cns:
                continue
            loc = R.locate(mt, a, FT, c, ch)
            u = stmt_node(G, inst, nid)
            if loc is None or u is None:
                ctx.stats["unresolved"] = ctx.stats.get("unresolved", 0) + 1
                ctx.notes.append("%s: position of the write at %s is not resolved" % (name, inst.where(nid)))
                ok = False
                break
            pix, chan = loc
            if impure(s):
                s = ("unique", inst.id, nid, s)
            ev.append((fld, (s, pix.key()), chan, u, inst, nid, rhs, pix, w))
        if not ok or not ev:
            continue
        ncn = {}
        for e in ev:
            mt = e[8][2]
            ncn[e[0]] = int(const_of(mt[1].subst_rat(lambda l: Rat.c(c) if l == CN else None)) or 0)
        full = {f: frozenset(range(ncn.get(f, c) or 1)) for f in R.flds}
        gen = {}
        for e in ev:
            fld, key, chan, u, inst, nid = e[:6]
            if chan == "all":
                gen.setdefault(u, []).append((fld, key, full[fld], e))
            elif chan[0] == "c":
                gen.setdefault(u, []).append((fld, key, frozenset((chan[1],)), e))
            elif chan[0] == "v":
                l = loop_of(G, inst, chan[1])
                if l is None:
                    gen.setdefault(u, []).append((fld, key, full[fld], e))
                    continue
                lifted.setdefault((l[0], fld, key), []).append((e, l))
            else:
                gen.setdefault(u, []).append((fld, key, frozenset(range(chan[2], chan[3])), e))
        kills = kill_sites(G)
        for (h, fld, key), es in lifted.items():
            marks = {e[3] for e, _ in es}
            why = every_iteration(G, h, marks)
            inner = kills_inside(G, h, kills, vars_in(key[0], set()) | vars_in(es[0][0][7], set()))
            if why == "" and not inner:
                gen.setdefault(h, []).append((fld, key, full[fld], es[0][0]))
            else:
                for e, _ in es:
                    gen.setdefault(e[3], []).append((fld, key, frozenset(("*" if why else "?",)), e))
        flow(ctx, R, name, c, gen, full, kills, ev, done)
        sources(ctx, R, name, c, ev, done)


def kill_sites(G):
    out = {}
    for nd in G.stmts():
        n = nd.n()
        w = []
        if n["k"] == "DeclStmt":
            w += [("L", nd.inst.id, d["id"], d["name"]) for d in n["decls"]]
        w += [p for p in lhs_written(nd.inst, nd.ref) if p[0] in ("L", "P")]
        if w:
            out[nd.i] = w
    return out


def kills_inside(G, head, kills, vs):
    tru = [v for v, e in G.nodes[head].succ if e and e[3]]
    seen, st = set(), list(tru)
    while st:
        u = st.pop()
        if u in seen or u == head:
            continue
        seen.add(u)
        st += [v for v, _ in G.nodes[u].succ]
    back, st = set(), [head]
    while st:
        u = st.pop()
        for p, _ in G.nodes[u].pred:
            if p not in back and p in seen:
                back.add(p)
                st.append(p)
    return any(x in vs for u in seen & back for x in kills.get(u, ()))


def flow(ctx, R, name, c, gen, full, kills, ev, done):
    G = R.G
    keyvars = {}
    site = {}
    for e in ev:
        keyvars.setdefault(e[1], set()).update(vars_in(e[1][0], set()) | vars_in(e[7], set()))
        site.setdefault((e[1], e[0]), e)
    zero = tuple(frozenset() for _ in R.flds)
    order = G.rpo()
    IN, OUT = {}, {}
    bad = {}

    def verdict(k, pats):
        for p in pats:
            if p == zero:
                continue
            miss = [f for f, x in zip(R.flds, p) if not x]
            part = [f for f, x in zip(R.flds, p) if x and x != full[f]]
            if miss or part:
                bad.setdefault((k, tuple(miss), tuple(part)), True)

    for rounds in range(60):
        changed = False
        for u in order:
            if u == G.entry.i:
                s = {}
            else:
                s = None
                for p, _ in G.nodes[u].pred:
                    o = OUT.get(p)
                    if o is None:
                        continue
                    if s is None:
                        s = dict(o)
                    else:
                        for k in set(s) | set(o):
                            s[k] = s.get(k, frozenset((zero,))) | o.get(k, frozenset((zero,)))
                if s is None:
                    continue
            o = dict(s)
            for x in kills.get(u, ()):
                for k in list(o):
                    if x in keyvars[k]:
                        verdict(k, o[k])
                        del o[k]
            for fld, key, chans, e in gen.get(u, ()):
                i = R.flds.index(fld)
                o[key] = frozenset(p[:i] + (p[i] | chans,) + p[i + 1:] for p in o.get(key, frozenset((zero,))))
            if G.nodes[u].kind == "exit" and G.nodes[u].inst is G.root:
                for k, ps in o.items():
                    verdict(k, ps)
            if OUT.get(u) != o:
                OUT[u] = o
                changed = True
        if not changed:
            break
    badkeys = {k[0] for k in bad}
    for (k, miss, part), _ in sorted(bad.items(), key=lambda x: repr(x)):
        e = next((site[(k, f)] for f in R.flds if (k, f) in site and f not in miss), None)
        if e is None:
            continue
        if miss:
            # is the other part written somewhere else (another sample or another pixel)?
            msg = "%s replaces '%s' of a background sample on a path that does not replace '%s' of the same sample at the same pixel" % (name, e[0], "', '".join(miss))
        else:
            msg = "%s does not replace every channel of '%s' when it replaces a background sample (%d-channel images)" % (name, "', '".join(part), c)
        ctx.bad("together", e[4].where(e[5]), msg, key="together|%s|%s|%s|%s" % (name, e[0], miss, part))
    for k in keyvars:
        if k in badkeys:
            continue
        e = next(site[(k, f)] for f in R.flds if (k, f) in site)
        w = e[4].where(e[5])
        if ("t", name, w, c) not in done:
            done.add(("t", name, w, c))
            ctx.ok("together", w, "%s: %s (%d channels)" % (name.split("::")[1], "+".join(R.flds), c))


# ---- where the two parts of a replaced sample come from

def sources(ctx, R, name, c, ev, done):
    bykey = {}
    for e in ev:
        bykey.setdefault((e[1], ), []).append(e)
    for k, es in bykey.items():
        obs = []       # (field, event, pixel key, matrix kind)
        for e in es:
            if e[6] is None:
                continue
            for o in origin(R, e[4], e[6], c):
                obs.append((e, o))
        for e, o in obs:
            mat, pix, chan, what = o
            ech = e[2]
            if chan is not None and ech != "all" and chan != "all" and chan[0] in ("c", "v") and ech[0] in ("c", "v") and chan != ech and what != "at":
                ctx.bad("source", e[4].where(e[5]), "%s fills channel %s of '%s' from channel %s of '%s'" % (name, cshow(ech), e[0], cshow(chan), U.name_of(mat)),
                        key="srcchan|%s|%s|%s" % (name, e[0], what))
            if what == "ref" and root_of(mat) is not None and root_of(mat)[0] in R.flds and not any(e2 is not e and root_of(o2[0]) == root_of(mat) for e2, o2 in obs):
                ctx.bad("source", e[4].where(e[5]), "%s computes the '%s' part of a background sample against a value stored in '%s' instead of the observed value" %
                        (name, e[0], root_of(mat)[0]), key="srcref|%s|%s" % (name, e[0]))
        pixs = {}
        for e, o in obs:
            pixs.setdefault(o[1].key(), []).append((e, o))
        flds = {e[0] for e, o in obs}
        if len(pixs) > 1:
            groups = list(pixs.values())
            # two writes of the same field on different paths may take different pixels; compare writes of different fields
            for e, o in obs:
                others = [(e2, o2) for e2, o2 in obs if e2[0] != e[0]]
                if others and not any(o2[1].key() == o[1].key() for _, o2 in others) or any(e2 is e and o2[1].key() != o[1].key() for e2, o2 in obs):
                    ctx.bad("source", e[4].where(e[5]), "%s takes '%s' of a background sample from one pixel (%s) and another part of the same sample from a different pixel" %
                            (name, e[0], o[1]), key="srcpix|%s|%s" % (name, e[0]))
                    break
        elif len(flds) > 1:
            e = obs[0][0]
            w = e[4].where(e[5])
            if ("s", name, w, c) not in done:
                done.add(("s", name, w, c))
                ctx.ok("source", w, "%s: %d parts from pixel %s" % (name.split("::")[1], len(flds), obs[0][1][1]))


def cshow(c):
    return "all" if c == "all" else str(c[1]) if c[0] == "c" else "'%s'" % c[1][3]


def origin(R, inst, nid, c, d=0):
    """element reads whose value the expression is, and the coordinates of descriptors computed for it: [(matrix, pixel, channel, how)]"""
    fn = inst.fn
    i = M.strip(fn, nid)
    n = fn.nodes[i]
    if d > 10:
        return []
    for j in (i, nid):
        r = R.reads.get((inst.id, j))
        if r:
            out = []
            for b, mt, a, FT, cns in r:
                if c in cns or True:
                    l = R.locate(mt, a, FT, c)
                    if l is not None:
                        out.append((b, l[0], l[1], "read"))
            return out
    k = n["k"]
    if k in CASTS or k in CTORS and n.get("cpmv") and n["ch"]:
        return origin(R, inst, n["ch"][0], c, d + 1) if n["ch"] else []
    if k == "DeclRefExpr" and n.get("dk") in ("parm", "local"):
        owner, info = inst.find_decl(n["d"])
        if owner is None:
            return []
        if n["d"] in owner.bind and owner.bind[n["d"]] is not None:
            b = owner.bind[n["d"]]
            return origin(R, b[0], b[1], c, d + 1) if n["d"] not in mutated(owner.fn) else []
        if info is not None and info.get("init", -1) >= 0 and n["d"] not in mutated(owner.fn):
            return origin(R, owner, info["init"], c, d + 1)
        return []
    if k == "CXXOperatorCallExpr" and n.get("op") == "[]" or k == "ArraySubscriptExpr":
        base = n["ch"][1] if k == "CXXOperatorCallExpr" else n["ch"][0]
        p = path(inst, base)
        if p[0] == "L":      # a local array: what is put into it
            out = []
            ri = val(inst, n["ch"][2] if k == "CXXOperatorCallExpr" else n["ch"][1])
            for w, wi, wn, rhs in local_writes(R, p):
                wx = val(wi, w)
                for b, px, ch, how in origin(R, wi, rhs, c, d + 1):
                    if ch is not None and ch != "all":
                        if ch[0] == "v" and wx == ch[1]:      # element c holds channel c
                            ch = ("v", ri) if ri[0] in ("L", "P") else ("c", ri[1]) if ri[0] == "c" else None
                        elif ch[0] == "c" and wx == ("c", ch[1]):
                            ch = None
                        else:
                            ch = ("c", "another")
                    out.append((b, px, ch, how))
            return out
        return []
    if k in CALLS and last(n.get("fn", "")).split("<")[0].startswith("computeDescriptor"):
        _, args = callee_args(n)
        pn = n.get("pt", [])
        out = []
        nm = last(n["fn"]).split("<")[0]
        if nm == "computeDescriptor_threshold" and len(args) >= 2:
            out += [(b, p, ch, "ref") for b, p, ch, _ in origin(R, inst, args[1], c, d + 1)]
            v = path(inst, args[0])
            while v[0] in ("idx", "&", "*"):
                v = v[1]
            if v[0] == "L":
                out += lookup_pos(R, v, c)
        return out
    return []


def local_writes(R, p):
    out = []
    for nd in R.G.stmts():
        n = nd.n()
        if n["k"] in ("BinaryOperator",) and n.get("op") == "=" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 2:
            l, r = (n["ch"][0], n["ch"][1]) if n["k"] == "BinaryOperator" else (n["ch"][1], n["ch"][2])
            q = path(nd.inst, l)
            if q[0] == "idx" and q[1] == p:
                j = nd.inst.fn.nodes[M.strip(nd.inst.fn, l)]
                out.append((j["ch"][2] if j["k"] == "CXXOperatorCallExpr" else j["ch"][1], nd.inst, nd.ref, r))
    return out


def lookup_pos(R, arr, c):
    """pixels at which the pattern values in a local table were collected"""
    out = []
    for nd in R.G.stmts():
        n = nd.n()
        if n["k"] in CALLS and last(n.get("fn", "")).split("<")[0] == "computeDescriptor_lookup":
            _, args = callee_args(n)
            if len(args) >= 4:
                v = path(nd.inst, args[-1])
                while v[0] in ("idx", "&", "*"):
                    v = v[1]
                if v == arr:
                    x, y = rat(nd.inst, args[1]), rat(nd.inst, args[2])
                    out.append((path(nd.inst, args[0]), R.lut(y * Rat.leaf(W) + x), None, "at"))
    return out


def described(ctx, R, done):
    """a descriptor stored for a pixel is computed at that pixel, for that channel, against that pixel's value"""
    name = "%s::%s" % (R.rec.split("<")[0].rstrip("_"), last(R.f.fn))
    for nd in R.G.stmts():
        n = nd.n()
        if n["k"] not in CALLS or last(n.get("fn", "")).split("<")[0] != "computeDescriptor":
            continue
        _, args = callee_args(n)
        if len(args) != 7:
            continue
        out = R.reads.get((nd.inst.id, M.strip(nd.inst.fn, args[6])))
        if not out:
            continue
        b, mt, a, FT, cns = out[0]
        for c in sorted(cns):
            l = R.locate(mt, a, FT, c)
            if l is None:
                continue
            where = nd.inst.where(nd.ref)
            q = R.lut(rat(nd.inst, args[3]) * Rat.leaf(W) + rat(nd.inst, args[2]))
            bad = None
            if style(q) == style(l[0]) and q.key() != l[0].key():
                bad = "computes the descriptor stored for pixel %s at pixel %s" % (l[0], q)
            for m, p, ch, _ in origin(R, nd.inst, args[1], c):
                if p.key() != l[0].key():
                    bad = "computes the descriptor stored for pixel %s against the value of pixel %s" % (l[0], p)
                elif c > 1 and ch not in (None, "all") and l[1] != "all" and ch != l[1]:
                    bad = "computes the descriptor of channel %s against the value of channel %s" % (cshow(l[1]), cshow(ch))
            v = val(nd.inst, args[4])
            if c > 1 and l[1] != "all" and l[1][0] in ("c", "v") and v[0] in ("c", "L", "P") and v != (("c", l[1][1]) if l[1][0] == "c" else l[1][1]):
                bad = "stores the descriptor of another channel than the one it is stored for (%s)" % cshow(l[1])
            if bad:
                ctx.bad("described", where, "%s %s" % (name, bad), key="described|%s|%s" % (name, bad))
            elif ("d", where, c) not in done:
                done.add(("d", where, c))
                ctx.ok("described", where, "%s: %s (%d channels)" % (name.split("::")[1], U.name_of(b), c))


def style(r):
    return any(W in m for m in r.n)
