"""M01-M03: evaluation metrics - aggregation, formulas, pixel classification table."""
import re
from .flow import *
from .ratexp import *
from .cprop import CProp
from .program import rel
from . import extract as X

COUNTERS = {"lv::BinClassif": None, "lv::StereoDispErrors": None}
VALUES = ("lv::BinClassifMetrics", "lv::StereoDispErrorMetrics")


def fields(P, rec):
    r = P.recs.get(rec)
    return {f["name"]: f["t"] for f in r["fields"]} if r else {}


def noinline(inst, n, callee):
    return not (callee.fn.startswith(("lv::Exception", "lv::ostream", "lv::putf", "lv::getLog")))


def graph(P, fn):
    return Graph(P, fn, dyn=fn.rec, inline=noinline, maxdepth=6)


def field_of(p, flds):
    """(base, field) if the path designates one of the fields"""
    if p[0] == "M" and p[2] in flds:
        return p[1], p[2]
    return None


def is_this(b):
    return sub(b, ("this",))


def cond_atoms(G, MF, conds):
    out = set()
    for c in conds:
        if c[0] == "node":
            out |= set(MF.at(c[1]))
        else:
            out |= set(atoms(c[0], c[1], c[2], G, lambda i: MF.OUT.get(i)))
    return out


# ------------------------------------------------------------------------------------------------ loops
def loop_range(fn, nid):
    """(var id, start const, bound node, op, step) of a counting loop, or None"""
    n = fn.nodes[nid]
    p = n.get("parts", {})
    if n["k"] not in ("ForStmt", "WhileStmt"):
        return None
    i = p.get("init", -1)
    var = start = None
    if i is not None and i >= 0:
        d = fn.nodes[i]
        if d["k"] == "DeclStmt" and len(d["decls"]) >= 1 and d["decls"][0].get("init", -1) >= 0:
            var = d["decls"][0]["id"]
            s = d["decls"][0]["init"]
            start = strip(fn, s)
    elif n["k"] == "WhileStmt" or i is None or i < 0:
        return loop_range_outside(fn, nid)
    if var is None:
        return None
    c = p.get("cond", -1)
    if c is None or c < 0:
        return None
    cn = fn.nodes[strip(fn, c)]
    if cn["k"] != "BinaryOperator" or cn["op"] not in ("<", "!=", "<=", ">", ">="):
        return None
    a, b = strip(fn, cn["ch"][0]), strip(fn, cn["ch"][1])
    op = cn["op"]
    if fn.nodes[b].get("d") == var:
        a, b = b, a
        op = SWP[op]
    if fn.nodes[a].get("d") != var:
        return None
    inc = p.get("inc", -1)
    step = None
    if inc is not None and inc >= 0:
        parts = [strip(fn, inc)]
        while parts:
            ii = fn.nodes[parts.pop()]
            if ii["k"] == "BinaryOperator" and ii["op"] == ",":
                parts += [strip(fn, x) for x in ii["ch"]]
                continue
            if not ii.get("ch") or fn.nodes[strip(fn, ii["ch"][0])].get("d") != var:
                continue
            if ii["k"] == "UnaryOperator" and ii["op"] in ("++", "post++"):
                step = 1
            elif ii["k"] == "CompoundAssignOperator" and ii["op"] == "+=":
                step = fn.nodes[strip(fn, ii["ch"][1])].get("c")
    return var, fn.nodes[start].get("c"), b, op, step


def strip(fn, nid):
    while nid >= 0 and fn.nodes[nid]["k"] in CASTS | {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"} and fn.nodes[nid].get("ch") and "c" not in fn.nodes[nid]:
        nid = fn.nodes[nid]["ch"][0]
    return nid


LOOPS = ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt")


def loop_range_outside(fn, nid):
    """counting loop whose variable is declared in front of the loop, in the same block, and only stepped by the loop"""
    n = fn.nodes[nid]
    p = n.get("parts", {})
    c = p.get("cond", -1)
    if c is None or c < 0:
        return None
    cn = fn.nodes[strip(fn, c)]
    if cn["k"] != "BinaryOperator" or cn["op"] not in ("<", "!=", "<="):
        return None
    a, b = strip(fn, cn["ch"][0]), strip(fn, cn["ch"][1])
    v = fn.nodes[a]
    if v["k"] != "DeclRefExpr" or v.get("dk") != "local":
        return None
    par = fn.parents()
    blk = par.get(nid)
    dec = None
    for i, m in enumerate(fn.nodes):
        if m and m["k"] == "DeclStmt" and par.get(i) == blk:
            for d in m["decls"]:
                if d["id"] == v["d"] and d.get("init", -1) >= 0:
                    dec = d
    if dec is None:
        return None
    steps = []
    for i, m in enumerate(fn.nodes):
        if not m or not m.get("ch"):
            continue
        if m["k"] in ("BinaryOperator", "CompoundAssignOperator") and m.get("op") in ASSIGN or m["k"] == "UnaryOperator" and m.get("op") in ("++", "--", "post++", "post--", "&"):
            if fn.nodes[strip(fn, m["ch"][0])].get("d") == v["d"]:
                steps.append(i)
    if len(steps) != 1:
        return None
    m = fn.nodes[steps[0]]
    inc, body = p.get("inc", -1), p.get("body", -1)
    home = par.get(steps[0])
    if not (inc is not None and inc >= 0 and steps[0] in set(fn.walk(inc)) or home == body or par.get(home) == body and fn.nodes[home]["k"] == "ExprWithCleanups"):
        return None
    if home == body and any(fn.nodes[x]["k"] == "ContinueStmt" for x in fn.walk(body)):
        return None
    if m["k"] == "UnaryOperator" and m["op"] in ("++", "post++"):
        step = 1
    elif m["k"] == "CompoundAssignOperator" and m["op"] == "+=":
        step = fn.nodes[strip(fn, m["ch"][1])].get("c")
    else:
        return None
    return v["d"], fn.nodes[strip(fn, dec["init"])].get("c"), b, cn["op"], step


def enclosing_loops(fn, nid):
    out = []
    par = fn.parents()
    while nid in par:
        nid = par[nid]
        if fn.nodes[nid]["k"] in LOOPS:
            out.append(nid)
    return out


def covers_all(inst, lnid, start=0):
    """None if the loop visits every element from `start`, else the reason it does not; "?" when unknown"""
    fn = inst.fn
    n = fn.nodes[lnid]
    body = n.get("parts", {}).get("body", -1)
    if body is not None and body >= 0:
        inner = set()
        for i in fn.walk(body):
            if fn.nodes[i]["k"] in LOOPS + ("SwitchStmt",):
                inner |= set(fn.walk(i))
        for i in fn.walk(body):
            if fn.nodes[i]["k"] == "BreakStmt" and i not in inner:
                return "leaves the loop early at line %s" % fn.nodes[i].get("line")
    if n["k"] == "CXXForRangeStmt":
        return None if start == 0 else "?"
    r = loop_range(fn, lnid)
    if not r:
        return "?"
    var, st, bound, op, step = r
    if st is None or step is None:
        return "?"
    if st != start:
        return "starts at element %s instead of %s" % (st, start)
    if step != 1:
        return "advances by %s" % step
    if op not in ("<", "!="):
        return "runs past the last element (%s)" % op
    b = val(inst, bound)
    t = repr(b)
    if b[0] == "call" and last(b[1]) in ("size", "total") or b[0] == "M" and b[2] in ("rows", "cols"):
        return None
    if b[0] in ("b-",) and "size" in t:
        return "stops before the last element"
    return "?"


def unconditional(fn, nid, top):
    """is nid executed in every iteration of loop `top` (no enclosing if between, no earlier continue)"""
    par = fn.parents()
    i = nid
    while i in par and i != top:
        j = par[i]
        k = fn.nodes[j]["k"]
        if k in ("IfStmt", "SwitchStmt", "CXXTryStmt") and i != fn.nodes[j].get("parts", {}).get("cond"):
            return False
        if k == "ConditionalOperator" and i != fn.nodes[j]["ch"][0]:
            return False
        if k == "BinaryOperator" and fn.nodes[j]["op"] in ("&&", "||") and i != fn.nodes[j]["ch"][0]:
            return False
        i = j
    for c in fn.walk(top):
        if fn.nodes[c]["k"] == "ContinueStmt" and fn.nodes[c].get("line", 0) <= fn.nodes[nid].get("line", 0):
            return False
    return True


# ------------------------------------------------------------------------------------------------ M01
def m01(P, ctx):
    for rec in COUNTERS:
        fl = fields(P, rec)
        if not fl:
            continue
        for fn in P.methods_of(rec):
            nm = last(fn.fn)
            if nm == "isEqual" and len(fn.params) == 1:
                check_equal(P, ctx, fn, fl)
            elif nm == "accumulate" and len(fn.params) == 1:
                check_accumulate(P, ctx, fn, fl)
            elif nm == "total":
                check_total(P, ctx, fn, rec)
            elif fn.kind == "ctor" and not fn.params:
                check_zero(P, ctx, fn, fl)
    for rec in list(P.recs):
        if rec.startswith("lv::IMetricsAccumulator_<"):
            for fn in P.methods_of(rec):
                nm = last(fn.fn)
                if nm == "isEqual":
                    check_deleg(P, ctx, fn, rec, "isEqual")
                elif nm in ("accumulate", "reduce"):
                    check_deleg(P, ctx, fn, rec, "accumulate")
        if rec.startswith("lv::IMetricsCalculator_<"):
            for fn in P.methods_of(rec):
                if last(fn.fn) == "accumulate":
                    check_average(P, ctx, fn)
                elif last(fn.fn) == "reduce":
                    check_mean(P, ctx, fn)
    gl_counters(P, ctx)
    redirects(P, ctx)
    one_each(P, ctx)


def redirects(P, ctx):
    """== and != of the super-interfaces are the comparison and its opposite"""
    for rec in ("lv::IIMetricsAccumulator", "lv::IIMetricsCalculator"):
        for fn in P.methods_of(rec):
            nm = last(fn.fn)
            if nm not in ("operator==", "operator!="):
                continue
            G = graph(P, fn)
            calls = [(nd.inst, nd.ref) for nd in G.stmts() if nd.n()["k"] == "CXXMemberCallExpr" and last(nd.n().get("fn", "")) == "isEqual"]
            if not calls:
                ctx.notes.append("%s: comparison not resolved" % fn.where())
                continue
            bad = False
            for same in (0, 1):
                C = CProp(G, lambda inst, nid: same if any(inst is i and nid == x for i, x in calls) else None)
                want = same if nm == "operator==" else 1 - same
                for rn in G.root.rets:
                    if rn.i in C.IN and rn.n().get("ch"):
                        v = C.ev(G.root, rn.n()["ch"][0], C.IN[rn.i])
                        if v is not None and bool(v) != bool(want):
                            bad = True
            if bad:
                ctx.bad("redirected", fn.where(), "%s says the opposite of isEqual" % fn.fn if nm == "operator==" else "%s does not say the opposite of isEqual" % fn.fn, key="redirect|%s|%s" % (rec, nm))
            else:
                ctx.ok("redirected", fn.where(), fn.fn)


def one_each(P, ctx):
    """lists of derived metrics have one entry per list of counters, in the same order"""
    for fn in P.all():
        if not rel(fn.file).startswith("modules/datasets/") or fn.kind == "lambda":
            continue
        for i, n in enumerate(fn.nodes):
            if not n or n["k"] != "CXXMemberCallExpr" or last(n.get("fn", "")) not in ("push_back", "emplace_back"):
                continue
            if not any("vector<" + v in n.get("rec", "") or "vector<" + v.replace("lv::", "") in n.get("rec", "") for v in VALUES):
                continue
            loops = enclosing_loops(fn, i)
            if not loops:
                continue
            where = fn.where(i)
            ins = Inst(fn)
            r = covers_all(ins, loops[0])
            if r not in (None, "?"):
                ctx.bad("one-each", where, "%s does not derive metrics for every stream: the loop %s" % (fn.fn, r), key="oneeach|%s" % fn.fk)
            elif not unconditional(fn, i, loops[0]):
                ctx.bad("one-each", where, "%s derives metrics for some streams only: the rest of the list is shifted" % fn.fn, key="oneeach|%s" % fn.fk)
            else:
                ctx.ok("one-each", where, "%s: one entry per stream" % fn.fn)


def eq_pairs(facts):
    out = set()
    for a in facts:
        if a[0] == "==" and len(a) == 3:
            out.add((a[1], a[2]))
            out.add((a[2], a[1]))
    return out


def check_equal(P, ctx, fn, fl):
    G = graph(P, fn)
    MF = MustFacts(G)
    rets = G.root.rets
    truth = []
    for rn in rets:
        ch = rn.n().get("ch", [])
        if not ch:
            continue
        c = fn.nodes[ch[0]]
        if "c" in c and not c["c"]:
            continue
        f = set(MF.at(rn.i)) | set(atoms(G.root, ch[0], True, G, lambda i: MF.OUT.get(i)))
        truth.append((rn, f))
    mentioned = set()
    for nd in G.stmts():
        n = nd.n()
        if n["k"] == "MemberExpr" and n["n"] in fl:
            p = path(nd.inst, nd.ref)
            fo = field_of(p, fl)
            if fo:
                mentioned.add((fo[1], is_this(fo[0])))
    for rn, facts in truth:
        pairs = eq_pairs(facts)
        texts = [repr(x) for x in facts]
        for f in fl:
            good = any(a[0] == "M" and b[0] == "M" and a[2] == f and b[2] == f and is_this(a) != is_this(b) for a, b in pairs)
            if not good:
                # containers: a comparison call whose operands are the two fields
                good = any(a[0] in ("true", "==") and isinstance(a[-1], tuple) and
                           any(l[0] in ("op==", "call") and (l[0] == "op==" or last(l[1]) in ("equal", "operator==")) and
                               mentions(l, f, True) and mentions(l, f, False) for l in leaves(a)) for a in facts)
            if good:
                ctx.ok("compared", rn.inst.where(rn.ref), "%s: %s" % (fn.fn, f))
                continue
            cross = [b[2] for a, b in pairs if a[0] == "M" and b[0] == "M" and a[2] == f and b[2] in fl and b[2] != f and is_this(a) != is_this(b)]
            if cross:
                ctx.bad("compared", rn.inst.where(rn.ref), "%s compares '%s' with '%s' of the other object" % (fn.fn, f, cross[0]), key="eqcross|%s|%s" % (fn.rec, f))
            elif (f, True) not in mentioned or (f, False) not in mentioned or (pairs and all_plain(facts)):
                ctx.bad("compared", rn.inst.where(rn.ref), "%s can report two objects equal although '%s' differs" % (fn.fn, f), key="eqmiss|%s|%s" % (fn.rec, f))
            else:
                r = equal_with_difference(G, fl, f)
                if r is not None:
                    ctx.bad("compared", r.inst.where(r.ref), "%s can report two objects equal although '%s' differs" % (fn.fn, f), key="eqmiss|%s|%s" % (fn.rec, f))
                else:
                    ctx.notes.append("%s: comparison of %s not resolved" % (fn.where(), f))


def equal_with_difference(G, fl, f):
    """a return reached with the value true when only field f (of all fields) differs"""
    def leaf(inst, nid):
        n = inst.fn.nodes[nid]
        if not n or n["k"] not in ("BinaryOperator", "CXXOperatorCallExpr", "CallExpr"):
            return None
        op = n.get("op")
        if n["k"] == "CallExpr":
            if last(n.get("fn", "")).split("<")[0] != "equal":
                return None
            v = val(inst, nid)
            for g in fl:
                if mentions(v, g, True) and mentions(v, g, False):
                    return int(g != f)
            return None
        if op not in ("==", "!="):
            return None
        a, b = [val(inst, x) for x in n["ch"][-2:]]
        if a[0] == "call" and b[0] == "call" and last(a[1]) == "size" and last(b[1]) == "size":
            return int(op == "==")
        fa, fb = field_of(a, fl), field_of(b, fl)
        if fa and fb and fa[1] == fb[1] and is_this(fa[0]) != is_this(fb[0]):
            return int((op == "==") == (fa[1] != f))
        return None
    C = CProp(G, leaf)
    for rn in G.root.rets:
        if rn.i in C.IN and rn.n().get("ch"):
            v = C.ev(G.root, rn.n()["ch"][0], C.IN[rn.i])
            if v is not None and v:
                return rn
    return None


def all_plain(facts):
    return all(a[0] in ("==", "!=", "<", "<=", "true", "false") for a in facts)


def mentions(t, f, this):
    return any(l[0] == "M" and l[2] == f and is_this(l) == this for l in leaves(t) if len(l) > 2)


def writes(G, fl):
    """[(node, base, field, op, rhs nid)] of field writes; op '?' when the new value is not an expression"""
    out = []
    for nd in G.stmts():
        n = nd.n()
        k = n["k"]
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
            fo = field_of(path(nd.inst, n["ch"][0]), fl)
            if fo:
                out.append((nd, fo[0], fo[1], n["op"], n["ch"][1]))
        elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
            fo = field_of(path(nd.inst, n["ch"][0]), fl)
            if fo:
                out.append((nd, fo[0], fo[1], "++" if "+" in n["op"] else "--", None))
        elif k in CALLS and nd.ref not in nd.inst.calls:
            if last(n.get("fn", "")) in NONKILL | {"reserve"}:
                continue
            for p in lhs_written(nd.inst, nd.ref):
                fo = field_of(p, fl)
                if fo:
                    out.append((nd, fo[0], fo[1], "?" + last(n.get("fn", "")), nd.ref))
    return out


def new_value(w, fl):
    """canonical value assigned by a write, over the old fields"""
    nd, base, f, op, rhs = w
    old = Rat.leaf(("M", base, f))
    if op == "=":
        return rat(nd.inst, rhs)
    if op == "++":
        return old + Rat.c(1)
    if op in ("+=", "-=", "*=", "/="):
        r = rat(nd.inst, rhs)
        return {"+": old + r, "-": old - r, "*": old * r, "/": old / r if r.n else None}[op[0]]
    return None


def must_run(G, nd, back=None):
    """is node nd on every non-throwing path from entry to exit"""
    seen = {G.entry.i}
    st = [G.entry.i]
    while st:
        u = st.pop()
        if u == nd.i:
            continue
        if u == G.exit.i:
            return False
        for v, c in G.nodes[u].succ:
            if v not in seen:
                seen.add(v)
                st.append(v)
    return True


def check_accumulate(P, ctx, fn, fl):
    G = graph(P, fn)
    ws = [w for w in writes(G, fl) if is_this(w[1])]
    for f, t in fl.items():
        mine = [w for w in ws if w[2] == f]
        where = fn.where()
        key = "acc|%s|%s" % (fn.rec, f)
        if not mine:
            whole = [nd for nd in G.stmts() if any(p == ("this",) or p == ("*", ("&", ("this",))) for p in lhs_written(nd.inst, nd.ref))]
            if whole:
                ctx.notes.append("%s: whole-object update not resolved" % where)
                continue
            ctx.bad("accumulated", where, "%s does not add '%s' of the other object" % (fn.fn, f), key=key)
            continue
        where = mine[0][0].inst.where(mine[0][0].ref)
        if "vector" in t:
            calls = [w for w in mine if w[3] in ("?insert", "?push_back", "?emplace_back")]
            good = False
            for w in calls:
                v = val(w[0].inst, w[4])
                if w[3] == "?insert" and mentions(v, f, True) and mentions(v, f, False):
                    r = [l for l in leaves(v) if l[0] == "call" and last(l[1]) in ("begin", "cbegin", "end", "cend")]
                    oth = [last(l[1]).replace("c", "") for l in r if not is_this(l)]
                    good = "begin" in oth and "end" in oth
                    if any(l[0] in ("op+", "op-", "b+", "b-") for l in leaves(v)):
                        good = False
                elif w[3] != "?insert":
                    good = True
            if calls and not good:
                ctx.bad("accumulated", where, "%s does not append the whole of '%s' of the other object" % (fn.fn, f), key=key)
            elif good and len(calls) == 1 and must_or_loop(G, calls[0][0]):
                ctx.ok("accumulated", where, "%s: every element of '%s' is appended" % (fn.fn, f))
            elif calls and not good:
                ctx.bad("accumulated", where, "%s does not append the whole of '%s' of the other object" % (fn.fn, f), key=key)
            else:
                ctx.notes.append("%s: update of %s not resolved" % (where, f))
            continue
        if len(mine) != 1:
            ctx.bad("accumulated", where, "%s updates '%s' %d times" % (fn.fn, f, len(mine)), key=key)
            continue
        w = mine[0]
        v = new_value(w, fl)
        ls = v.leaves() if v is not None else set()
        if v is None or any(not (isinstance(l, tuple) and l[0] == "M" and l[2] in fl) for l in ls):
            ctx.notes.append("%s: new value of %s not resolved: %r" % (where, f, v))
            continue
        oth = [l for l in ls if not is_this(l)]
        want = len(oth) == 1 and oth[0][2] == f and v == Rat.leaf(("M", w[1], f)) + Rat.leaf(oth[0])
        if not want:
            ctx.bad("accumulated", where, "%s sets '%s' to %r instead of the sum of both objects' '%s'" % (fn.fn, f, v, f), key=key)
        elif not must_run(G, w[0]):
            ctx.bad("accumulated", where, "%s adds '%s' only on some paths" % (fn.fn, f), key=key)
        else:
            ctx.ok("accumulated", where, "%s: %s" % (fn.fn, f))


def must_or_loop(G, nd):
    ls = enclosing_loops(nd.inst.fn, nd.ref)
    return bool(ls) or must_run(G, nd)


def check_total(P, ctx, fn, rec):
    want = {"lv::BinClassif": (["nTP", "nTN", "nFP", "nFN"], ["nDC"])}.get(rec)
    if not want:
        want = (["#vErrors"], ["nDC"])
    G = graph(P, fn)
    for flag in (0, 1):
        def leaf(inst, nid, _p=fn.params[0]["id"] if fn.params else None):
            n = inst.fn.nodes[nid]
            if n["k"] == "DeclRefExpr" and n.get("d") == _p and inst is G.root:
                return flag
            return None
        C = CProp(G, leaf)
        vals = []
        for rn in G.root.rets:
            if rn.i in C.IN:
                vals.append(sum_terms(C, G.root, rn.n()["ch"][0], C.IN[rn.i]))
        if len(vals) != 1 or vals[0] is None:
            ctx.notes.append("%s: total not resolved" % fn.where())
            continue
        w = sorted(want[0] + (want[1] if flag else []))
        if sorted(vals[0]) == w:
            ctx.ok("total", fn.where(), "%s(%d) = %s" % (fn.fn, flag, "+".join(w)))
        else:
            ctx.bad("total", fn.where(), "%s(%s) sums %s instead of %s" % (fn.fn, bool(flag), "+".join(sorted(vals[0])) or "nothing", "+".join(w)), key="total|%s|%d" % (rec, flag))


def sum_terms(C, inst, nid, st):
    n = inst.fn.nodes[nid]
    k = n["k"]
    v = C.ev(inst, nid, st)
    if v == 0:
        return []
    if k in CASTS and n.get("ch"):
        return sum_terms(C, inst, n["ch"][0], st)
    if k == "BinaryOperator" and n["op"] == "+":
        a, b = sum_terms(C, inst, n["ch"][0], st), sum_terms(C, inst, n["ch"][1], st)
        return None if a is None or b is None else a + b
    if k == "ConditionalOperator":
        c = C.ev(inst, n["ch"][0], st)
        if c is None:
            return None
        return sum_terms(C, inst, n["ch"][1 if c else 2], st)
    if k == "DeclRefExpr" and n.get("dk") == "local":
        owner, info = inst.find_decl(n["d"])
        if info and info.get("init", -1) >= 0:
            if n["d"] in mutated(owner.fn):
                terms = sum_terms(C, owner, info["init"], st)
                if terms is None:
                    return None
                for nd in C.G.stmts():
                    m = nd.n()
                    if nd.i in C.IN and nd.inst is owner and m["k"] in ("CompoundAssignOperator", "BinaryOperator") and m.get("op") in ASSIGN and path(owner, m["ch"][0]) == path(inst, nid):
                        if m["op"] != "+=" or enclosing_loops(owner.fn, nd.ref):
                            return None
                        t = sum_terms(C, owner, m["ch"][1], C.IN[nd.i])
                        if t is None:
                            return None
                        terms = terms + t
                return terms
            return sum_terms(C, owner, info["init"], st)
    if k == "MemberExpr":
        return [n["n"]]
    if k in CALLS and last(n.get("fn", "")) == "size":
        p = val(inst, nid)
        if p[0] == "call" and p[2][0] == "M":
            return ["#" + p[2][2]]
    return None


def check_zero(P, ctx, fn, fl):
    got = {}
    for i in fn.d.get("inits", []):
        if i.get("field") in fl and i["init"] >= 0:
            n = fn.nodes[i["init"]]
            got[i["field"]] = n.get("c", n["k"])
    G = graph(P, fn)
    for w in writes(G, fl):
        v = new_value(w, fl)
        if v is not None:
            got[w[2]] = 0 if not v.n else repr(v)
    for f, t in fl.items():
        if "vector" in t:
            continue
        if got.get(f) == 0 or (f not in got and P.recs[fn.rec] and any(x["name"] == f and x.get("init") is not None for x in P.recs[fn.rec]["fields"])):
            ctx.ok("starts-at-zero", fn.where(), "%s: %s" % (fn.rec, f))
        elif got.get(f) in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            ctx.ok("starts-at-zero", fn.where(), "%s: %s" % (fn.rec, f))
        else:
            ctx.bad("starts-at-zero", fn.where(), "%s does not start '%s' at zero" % (fn.fn, f), key="zero|%s|%s" % (fn.rec, f))


def check_deleg(P, ctx, fn, rec, what):
    """the accumulator's operation reaches the per-counter operation for every element"""
    stop = lambda inst, n, callee: noinline(inst, n, callee) and not (callee.rec in COUNTERS)
    G = Graph(P, fn, dyn=rec, inline=stop, maxdepth=6)
    MF = MustFacts(G)
    calls = [nd for nd in G.stmts() if nd.n()["k"] == "CXXMemberCallExpr" and nd.n().get("rec") in COUNTERS and last(nd.n().get("fn", "")) == what]
    nm = "%s (%s)" % (last(fn.fn), rec)
    if not calls:
        hi = max([n["line"] for n in fn.nodes if n and n.get("line")] or [fn.line])
        if any(f.kind == "lambda" and f.file == fn.file and fn.line <= f.line <= hi and any(n and n["k"] == "CXXMemberCallExpr" and n.get("rec") in COUNTERS and last(n.get("fn", "")) == what for n in f.nodes) for f in P.all()):
            ctx.notes.append("%s: counters are reached through an algorithm; coverage of all streams not resolved" % fn.where())
            return
        ctx.bad("delegated", fn.where(), "%s never %s the counters" % (nm, "compares" if what == "isEqual" else "accumulates"), key="deleg|%s|%s" % (rec, last(fn.fn)))
        return
    for nd in calls:
        n = nd.n()
        v = val(nd.inst, nd.ref)
        obj, arg = v[2], v[3] if len(v) > 3 else ("?",)
        key = "deleg|%s|%s" % (rec, last(fn.fn))
        where = nd.inst.where(nd.ref)
        loops = enclosing_loops(nd.inst.fn, nd.ref)
        if last(fn.fn) != "reduce":
            if obj[0] == "idx" and arg[0] == "idx" and obj[2] != arg[2]:
                ctx.bad("delegated", where, "%s pairs elements of different streams" % nm, key=key)
                continue
            fo = obj[1] if obj[0] == "idx" else obj
            fa = arg[1] if arg[0] == "idx" else arg
            if fo[0] == "M" and fa[0] == "M" and fo == fa:
                ctx.bad("delegated", where, "%s uses its own counters twice" % nm, key=key)
                continue
            if what == "accumulate" and fo[0] == "M" and not is_this(fo):
                ctx.bad("delegated", where, "%s accumulates into the wrong object" % nm, key=key)
                continue
        if loops:
            r = covers_all(nd.inst, loops[0])
            if r not in (None, "?"):
                ctx.bad("delegated", where, "%s does not cover every stream: the loop %s" % (nm, r), key=key)
                continue
            if r is None and not unconditional(nd.inst.fn, nd.ref, loops[0]):
                ctx.bad("delegated", where, "%s skips the counters of some streams" % nm, key=key)
                continue
            if what == "isEqual":
                # sizes must have been compared first
                ok = any(a[0] == "==" and a[1][0] == "call" and a[2][0] == "call" and last(a[1][1]) == "size" and last(a[2][1]) == "size" for a in MF.at(nd.i))
                if not ok:
                    ctx.bad("delegated", where, "%s compares elements without knowing that both lists have the same length" % nm, key=key + "|size")
                    continue
                body = set(nd.inst.fn.walk(loops[0]))
                early = [rn for rn in G.root.rets if nd.inst is G.root and rn.ref in body and rn.n().get("ch") and fn.nodes[rn.n()["ch"][0]].get("c")]
                if early:
                    ctx.bad("delegated", early[0].inst.where(early[0].ref), "%s reports equality before every element was compared" % nm, key=key + "|early")
                    continue
            if r == "?":
                ctx.notes.append("%s: loop not resolved" % where)
                continue
        elif what == "accumulate" and not must_run(G, nd):
            ctx.bad("delegated", where, "%s accumulates only on some paths" % nm, key=key)
            continue
        ctx.ok("delegated", where, nm)
    if what == "isEqual":
        # no path returns true after an element comparison said "different"
        for nd in calls:
            p = val(nd.inst, nd.ref)
            for rn in G.root.rets:
                ch = rn.n().get("ch", [])
                c = fn.nodes[ch[0]] if ch else {}
                if c.get("c") and ("false", p) in MF.at(rn.i):
                    ctx.bad("delegated", rn.inst.where(rn.ref), "%s reports equality after finding a difference" % nm, key="delegret|%s" % rec)


def check_average(P, ctx, fn):
    G = graph(P, fn)
    for vrec in VALUES:
        fl = fields(P, vrec)
        ws = [w for w in writes(G, fl) if is_this(w[1])]
        if not ws:
            continue
        wt = [w for w in writes(G, {"nWeight": 1}) if is_this(w[1])]
        where = fn.where()
        nm = fn.fn
        if len(wt) != 1:
            ctx.bad("weighted", where, "%s updates the relative weight %d times" % (nm, len(wt)), key="weight|%s" % fn.rec)
            continue
        wv = new_value(wt[0], {"nWeight": 1})
        wl = wv.leaves()
        own = [l for l in wl if isinstance(l, tuple) and l[0] == "M" and l[2] == "nWeight" and is_this(l)]
        oth = [l for l in wl if isinstance(l, tuple) and l[0] == "M" and l[2] == "nWeight" and not is_this(l)]
        if len(wl) == len(own) + len(oth):
            if len(own) == 1 and len(oth) == 1 and wv == Rat.leaf(own[0]) + Rat.leaf(oth[0]):
                ctx.ok("weighted", wt[0][0].inst.where(wt[0][0].ref), "weights add up")
            else:
                ctx.bad("weighted", wt[0][0].inst.where(wt[0][0].ref), "%s sets the relative weight to %r instead of the sum of both weights" % (nm, wv), key="weight|%s" % fn.rec)
                continue
        else:
            ctx.notes.append("%s: weight not resolved" % where)
            continue
        o, t = Rat.leaf(oth[0]), Rat.leaf(own[0])
        reach = reachable_from(G, wt[0][0].i)
        whole = any(field_of_any(p, vrec, P, nd) for nd in G.stmts() for p in lhs_written(nd.inst, nd.ref))
        for f in fl:
            mine = [w for w in ws if w[2] == f]
            key = "avg|%s|%s" % (fn.rec, f)
            if not mine:
                ctx.bad("averaged", where, "%s does not average '%s'" % (nm, f), key=key)
                continue
            if len(mine) > 1:
                ctx.notes.append("%s: several updates of %s" % (where, f))
                continue
            w = mine[0]
            lo = w[0].inst.where(w[0].ref)
            v = new_value(w, fl)
            if v is None:
                ctx.notes.append("%s: average of %s not resolved" % (lo, f))
                continue
            unk = [l for l in v.leaves() if not (isinstance(l, tuple) and l[0] == "M" and (l[2] in fl or l[2] == "nWeight"))]
            if unk and not any(isinstance(l, tuple) and (l[0] in ("intdiv", "trunc", "sqrt") or l[0] == "call" and last(l[1]).split("<")[0] in NONLINEAR) for l in unk):
                ctx.notes.append("%s: average of %s not resolved: %r" % (lo, f, v))
                continue
            of = [l for l in v.leaves() if isinstance(l, tuple) and l[0] == "M" and l[2] == f and not is_this(l)]
            if len(of) == 1 and v == (Rat.leaf(of[0]) * o + Rat.leaf(("M", w[1], f)) * t) / (o + t):
                if w[0].i in reach:
                    ctx.bad("averaged", lo, "%s averages '%s' after the weight was already updated" % (nm, f), key=key + "|order")
                else:
                    ls = [l for i in chain(w[0].inst) for l in enclosing_loops(i[0].fn, i[1] if i[1] is not None else w[0].ref)]
                    r = covers_all(w[0].inst, ls[0]) if ls and w[0].inst is G.root else None
                    if r is None and ls and w[0].inst is G.root and not unconditional(w[0].inst.fn, w[0].ref, ls[0]):
                        ctx.bad("averaged", lo, "%s leaves '%s' of some streams as it was although the weight is updated" % (nm, f), key=key + "|cond")
                        continue
                    if not ls and w[0].inst is G.root and not must_run(G, w[0]):
                        ctx.bad("averaged", lo, "%s averages '%s' only on some paths" % (nm, f), key=key + "|cond")
                        continue
                    if r not in (None, "?"):
                        ctx.bad("averaged", lo, "%s does not cover every stream: the loop %s" % (nm, r), key=key + "|loop")
                    else:
                        ctx.ok("averaged", lo, "%s: %s" % (nm, f))
            else:
                ctx.bad("averaged", lo, "%s sets '%s' to %r, which is not the weighted average of both objects' '%s'" % (nm, f, v, f), key=key)


NONLINEAR = {"sqrt", "pow", "max", "min", "abs", "fabs", "round", "floor", "ceil", "hypot", "log", "exp", "cbrt", "lround"}


def field_of_any(p, vrec, P, nd):
    return False


def chain(inst):
    yield inst, None
    while inst.caller is not None:
        yield inst.caller, inst.callnid
        inst = inst.caller


def reachable_from(G, i):
    seen = set()
    st = [v for v, _ in G.nodes[i].succ]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        st.extend(v for v, _ in G.nodes[u].succ)
    return seen


def check_mean(P, ctx, fn):
    G = graph(P, fn)
    for vrec in VALUES:
        fl = fields(P, vrec)
        ws = [w for w in writes(G, fl) if not is_this(w[1])]
        if not ws:
            continue
        base = ws[0][1]
        if base[0] != "L":
            ctx.notes.append("%s: reduction not resolved" % fn.where())
            continue
        owner, info = G.root.find_decl(base[2])
        init = path(owner, info["init"]) if info and info.get("init", -1) >= 0 else ("?",)
        first = None
        for l in leaves(init):
            if l[0] == "idx" and l[2][0] == "c":
                first = l[2][1]
            if l[0] == "call" and last(l[1]) == "front":
                first = 0
        for f in fl:
            key = "mean|%s|%s" % (fn.rec, f)
            mine = [w for w in ws if w[2] == f and w[1] == base]
            adds, divs, other = [], [], []
            for w in mine:
                v = new_value(w, fl)
                old = ("M", base, f)
                if v is None:
                    other.append(w)
                    continue
                rest = v - Rat.leaf(old)
                if old not in rest.leaves() and rest.n:
                    adds.append((w, rest))
                else:
                    q = Rat.leaf(old) / v if v.n else None
                    if q is not None and (Rat.c(1) * v) == Rat.leaf(old) / quotient(w, v, old):
                        divs.append((w, quotient(w, v, old)))
                    else:
                        other.append(w)
            where = mine[0][0].inst.where(mine[0][0].ref) if mine else fn.where()
            if other:
                ctx.notes.append("%s: reduction of %s not resolved" % (where, f))
                continue
            if len(adds) != 1 or len(divs) != 1:
                ctx.bad("reduced", where, "%s: '%s' is summed %d times and divided %d times" % (fn.fn, f, len(adds), len(divs)), key=key)
                continue
            al = [l for l in adds[0][1].leaves()]
            if len(al) != 1 or al[0][0] != "M" or al[0][2] != f or adds[0][1] != Rat.leaf(al[0]):
                ctx.bad("reduced", where, "%s adds %r to '%s'" % (fn.fn, adds[0][1], f), key=key)
                continue
            loops = enclosing_loops(adds[0][0][0].inst.fn, adds[0][0][0].ref)
            if not loops or first is None:
                ctx.notes.append("%s: reduction loop of %s not resolved" % (where, f))
                continue
            r = covers_all(adds[0][0][0].inst, loops[0], first + 1)
            if r not in (None, "?"):
                ctx.bad("reduced", where, "%s: the sum of '%s' %s" % (fn.fn, f, r), key=key)
                continue
            dl = divs[0][1]
            if not (len(dl.leaves()) == 1 and next(iter(dl.leaves()))[0] == "call" and last(next(iter(dl.leaves()))[1]) == "size" and dl == Rat.leaf(next(iter(dl.leaves())))):
                ctx.bad("reduced", where, "%s divides '%s' by %r instead of the number of streams" % (fn.fn, f, dl), key=key)
                continue
            ctx.ok("reduced", where, "%s: %s" % (fn.fn, f))


def quotient(w, v, old):
    """q such that v == old/q for a `x /= q` style write"""
    nd, base, f, op, rhs = w
    if op == "/=":
        return rat(nd.inst, rhs)
    return Rat.leaf(old) / v if v.n else Rat.c(1)


def gl_counters(P, ctx):
    """counters fetched from the evaluation shader land in the field of the same name"""
    for fn in P.named("lv::GLBinaryClassifierEvaluator::getMetricsBase"):
        fl = fields(P, "lv::BinClassif")
        en = P.enums.get("lv::BinClassif::CountersList")
        vals = enum_vals(en)
        G = graph(P, fn)
        for w in writes(G, fl):
            v = val(w[0].inst, w[4]) if w[4] is not None else ("?",)
            cs = [l[1] for l in leaves(v) if l[0] == "c"]
            want = [x for n, x in vals.items() if n == "Counter_" + w[2][1:]]
            where = w[0].inst.where(w[0].ref)
            if not want or not cs:
                ctx.notes.append("%s: shader counter not resolved" % where)
            elif want[0] in cs and w[3] == "+=":
                ctx.ok("fetched", where, "%s from shader counter %d" % (w[2], want[0]))
            else:
                ctx.bad("fetched", where, "%s is fetched from shader counter %s" % (w[2], cs), key="fetch|%s" % w[2])


def enum_vals(en):
    v = (en or {}).get("vals", {})
    if isinstance(v, dict):
        return v
    return {e[0] if isinstance(e, (list, tuple)) else e["name"]: e[1] if isinstance(e, (list, tuple)) else e.get("v") for e in v}


# ------------------------------------------------------------------------------------------------ M02
def spec():
    L = lambda n: Rat.leaf(n)
    TP, TN, FP, FN = L("nTP"), L("nTN"), L("nFP"), L("nFN")
    mcc = Rat.leaf(("sqrt", ((TP + FP) * (TP + FN) * (TN + FP) * (TN + FN)).key()))
    rcl, prc = TP / (TP + FN), TP / (TP + FP)
    return {
        "dRecall": rcl, "dPrecision": prc, "dSpecificity": TN / (TN + FP), "dFPR": FP / (FP + TN), "dFNR": FN / (TP + FN),
        "dPBC": Rat.c(100) * (FN + FP) / (TP + TN + FP + FN),
        "dMCC": (TP * TN - FP * FN) / mcc,
        "dFMeasure": Rat.c(2) * rcl * prc / (rcl + prc),
    }


def rename(r):
    def f(l):
        if isinstance(l, tuple):
            if l[0] == "M" and isinstance(l[2], str):
                return l[2]
            if l[0] == "sqrt":
                n, d = l[1]
                return ("sqrt", Rat({k: v for k, v in n}, {k: v for k, v in d}).subst(f).key())
        return l
    return r.subst(f)


def expand(G, MF, inst, nid, pre=(), depth=0):
    """[(conditions, value)] with helper calls with several returns expanded inside arithmetic (F-measure of recall and precision)"""
    out = []
    for conds, i, n in cases(inst, nid, pre):
        out.append((conds, rat(i, n)))
    return out


def m02(P, ctx):
    sp = spec()
    for fn in P.methods_of("lv::BinClassifMetrics"):
        if fn.kind != "ctor" or len(fn.params) != 1 or "BinClassif &" not in fn.params[0]["t"] or "Metrics" in fn.params[0]["t"]:
            continue
        G = graph(P, fn)
        MF = MustFacts(G)
        inits = {i["field"]: i["init"] for i in fn.d.get("inits", []) if i.get("field")}
        asg = {w[2]: (w[0].inst, w[4]) for w in writes(G, sp) if w[3] == "="}
        for f, want in sp.items():
            if f in asg:
                inst, nid = asg[f]
            elif f in inits:
                inst, nid = G.root, inits[f]
            else:
                ctx.bad("formula", fn.where(), "'%s' is never computed" % f, key="formula|%s" % f)
                continue
            formula(ctx, G, MF, inst, nid, f, want)
    # the direct overloads
    for fn in P.methods_of("lv::BinClassifMetrics"):
        nm = last(fn.fn)
        ps = [p["name"] for p in fn.params]
        if nm in ("CalcRecall", "CalcPrecision") and len(ps) == 2:
            ratio_fn(P, ctx, fn, lambda a, b: a / b)
        elif nm == "CalcFMeasure" and len(ps) == 2:
            ratio_fn(P, ctx, fn, lambda a, b: Rat.c(2) * a * b / (a + b))
        elif nm.startswith("Calc") and len(ps) == 1 and fn.params[0]["t"].startswith("const lv::BinClassif &"):
            f = {"CalcRecall": "dRecall", "CalcPrecision": "dPrecision", "CalcSpecificity": "dSpecificity", "CalcFalsePositiveRate": "dFPR", "CalcFalseNegativeRate": "dFNR", "CalcPercentBadClassifs": "dPBC", "CalcMatthewsCorrCoeff": "dMCC"}.get(nm)
            if f:
                ret_formula(P, ctx, fn, nm, sp[f])
    for q in VALUES:
        for fn in P.methods_of(q):
            if fn.kind == "method":
                divisions(P, ctx, fn)
    for rec in list(P.recs):
        if rec.startswith("lv::IMetricsCalculator_<"):
            for fn in P.methods_of(rec):
                if last(fn.fn) in ("reduce",):
                    divisions(P, ctx, fn)
    stereo(P, ctx)


def ratio_fn(P, ctx, fn, f):
    G = graph(P, fn)
    a, b = [Rat.leaf(p["name"]) for p in fn.params]
    want = f(a, b)
    def nameleaf(l):
        return l[3] if isinstance(l, tuple) and l[0] in ("P", "L") else l
    _ret(P, ctx, G, fn, want, nameleaf, last(fn.fn))


def ret_formula(P, ctx, fn, nm, want):
    G = graph(P, fn)
    def nameleaf(l):
        return l
    _ret(P, ctx, G, fn, want, None, nm)


def _ret(P, ctx, G, fn, want, nameleaf, nm):
    MF = MustFacts(G)
    done = False
    for rn in G.root.rets:
        ch = rn.n().get("ch", [])
        if not ch:
            continue
        for conds, i, n in cases(G.root, ch[0], (("node", rn.i),)):
            r = rat(i, n)
            r = r.subst(nameleaf) if nameleaf else rename(r)
            if not r.leaves():
                if r.n:
                    ctx.bad("formula", i.where(n), "%s returns the constant %r for degenerate counts instead of 0" % (nm, r), key="formula|%s|const" % fn.fk)
                continue
            judge(ctx, i.where(n), nm, r, want, "formula|%s" % fn.fk)
            done = True
    if not done:
        ctx.notes.append("%s: no value expression resolved" % fn.where())


def known(l):
    return isinstance(l, str) or (isinstance(l, tuple) and l[0] in ("sqrt", "intdiv", "trunc"))


def judge(ctx, where, nm, r, want, key):
    if r == want:
        ctx.ok("formula", where, "%s = %r" % (nm, want))
    elif all(known(l) for l in r.leaves()):
        ctx.bad("formula", where, "%s is computed as %r instead of %r" % (nm, r, want), key=key)
    else:
        ctx.notes.append("%s: %s not resolved (%r)" % (where, nm, r))


def direct_f(inst, nid):
    """dFMeasure computed from the counts directly: right, wrong, or None when not resolved"""
    tp, fp, fn = [Rat.leaf(x) for x in ("nTP", "nFP", "nFN")]
    want = Rat.c(2) * tp / (Rat.c(2) * tp + fp + fn)
    got = []
    for conds, i, n in cases(inst, nid):
        r = rename(rat(i, n))
        if r.leaves():
            if not all(known(l) for l in r.leaves()):
                return None
            got.append(r)
    return None if not got else all(r == want for r in got)


def formula(ctx, G, MF, inst, nid, f, want):
    if f == "dFMeasure":
        # built from recall and precision: the two operands must be the recall and precision of the same counters
        n = inst.fn.nodes[strip(inst.fn, nid)]
        tops = top_calls(G, inst, nid)
        names = {("dRecall" if x == spec()["dRecall"] else "dPrecision" if x == spec()["dPrecision"] else "?") for x in tops}
        if names == {"dRecall", "dPrecision"}:
            ctx.ok("formula", inst.where(nid), "dFMeasure from recall and precision")
        elif not names and direct_f(inst, nid) is not None:
            if direct_f(inst, nid):
                ctx.ok("formula", inst.where(nid), "dFMeasure from the counts")
            else:
                ctx.bad("formula", inst.where(nid), "dFMeasure is neither 2*precision*recall/(precision+recall) nor 2*TP/(2*TP+FP+FN)", key="formula|dFMeasure|direct")
        elif not names or any(not all(known(l) for l in x.leaves()) for x in tops):
            ctx.notes.append("%s: dFMeasure operands not resolved" % inst.where(nid))
        else:
            ctx.bad("formula", inst.where(nid), "dFMeasure is not computed from both recall and precision", key="formula|dFMeasure|operands")
        return
    done = False
    for conds, i, n in cases(inst, nid):
        r = rename(rat(i, n))
        if not r.leaves():
            if r.n:
                ctx.bad("formula", i.where(n), "%s is the constant %r for degenerate counts" % (f, r), key="formula|%s|const" % f)
            continue
        judge(ctx, i.where(n), f, r, want, "formula|%s" % f)
        done = True
    if not done:
        ctx.notes.append("%s not resolved" % f)


def top_calls(G, inst, nid, d=0):
    """non-constant values of the recall/precision operands reaching the F-measure division"""
    out = []
    for conds, i, n in cases(inst, nid):
        r = rat(i, n)
        for l in r.leaves():
            if isinstance(l, tuple) and l[0] in ("call", "?:"):
                # find the node of that call below n
                pass
        for x in i.fn.walk(n):
            pass
    # operands are parameters of the two-argument helper: look at every inlined call with two double arguments
    for gi in G.insts:
        if last(gi.fn.fn) == "CalcFMeasure" and len(gi.fn.params) == 2 and reaches(gi, inst):
            for p in gi.fn.params:
                b = gi.bind.get(p["id"])
                if b:
                    for conds, i, n in cases(b[0], b[1]):
                        r = rename(rat(i, n))
                        if r.leaves():
                            out.append(r)
    return out


def reaches(gi, inst):
    while gi is not None:
        if gi is inst:
            return True
        gi = gi.caller
    return False


def nonzero(G, facts, inst, nid, d=0):
    """True: divisor proven non-zero; False: it can be zero; None: unknown"""
    n = inst.fn.nodes[nid]
    k = n["k"]
    if d > 20:
        return None
    if "c" in n and not isinstance(n["c"], str) and k not in CALLS:
        return bool(n["c"])
    if k == "FloatingLiteral":
        return True
    if k in CASTS and n.get("ch"):
        return nonzero(G, facts, inst, n["ch"][0], d + 1)
    v = val(inst, nid)
    for a in facts:
        if a[0] == "<" and a[1] == ("c", 0) and a[2] == v:
            return True
        if a[0] == "!=" and (a[1], a[2]) in ((v, ("c", 0)), (("c", 0), v)):
            return True
        if a[0] == "true" and a[1] == v:
            return True
        if a[0] == "<=" and a[1][0] == "c" and isinstance(a[1][1], (int, float)) and a[1][1] > 0 and a[2] == v:
            return True
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        owner, info = inst.find_decl(n["d"])
        if owner is not None and n["d"] in owner.bind and owner.bind[n["d"]] and n["d"] not in mutated(owner.fn):
            return nonzero(G, facts, owner.bind[n["d"]][0], owner.bind[n["d"]][1], d + 1)
        if info and info.get("init", -1) >= 0 and n["d"] not in mutated(owner.fn):
            return nonzero(G, facts, owner, info["init"], d + 1)
        return False if owner is not None else None
    if k == "BinaryOperator" and n["op"] == "*":
        a, b = nonzero(G, facts, inst, n["ch"][0], d + 1), nonzero(G, facts, inst, n["ch"][1], d + 1)
        return True if a and b else (False if a is False or b is False else None)
    if k == "BinaryOperator" and n["op"] == "+":
        rr = rat(inst, nid)
        for a in facts:
            if a[0] == "<" and a[1] == ("c", 0) and polyeq(rr, a[2]):
                return True
            if a[0] == "!=" and ((a[1] == ("c", 0) and polyeq(rr, a[2])) or (a[2] == ("c", 0) and polyeq(rr, a[1]))):
                return True
        a, b = nonzero(G, facts, inst, n["ch"][0], d + 1), nonzero(G, facts, inst, n["ch"][1], d + 1)
        return True if a is True or b is True else (False if a is False and b is False else None)
    if k in CALLS:
        nm = last(n.get("fn", ""))
        obj, args = callee_args(n)
        if nm in ("sqrt", "sqrtf") and args:
            return nonzero(G, facts, inst, args[0], d + 1)
        if nm in ("max",) and len(args) == 2:
            xs = [nonzero(G, facts, inst, a, d + 1) for a in args]
            return True if any(isconstpos(inst, a) for a in args) else None
        if nm == "size" and v[0] == "call" and len(v) > 2:
            for a in facts:
                if a[0] == "false" and a[1][0] == "call" and last(a[1][1]) == "empty" and a[1][2] == v[2]:
                    return True
            return False
        if nid in inst.calls:
            rr = rat(inst, nid)
            for a in facts:
                if a[0] == "<" and a[1] == ("c", 0) and (polyeq(rr, a[2]) or a[2] == v):
                    return True
            return False
    if k == "MemberExpr":
        return False
    return None


def isconstpos(inst, nid):
    n = inst.fn.nodes[nid]
    while n["k"] in CASTS | {"MaterializeTemporaryExpr"} and n.get("ch"):
        n = inst.fn.nodes[n["ch"][0]]
    c = n.get("c", n.get("fc"))
    try:
        return float(c) > 0
    except Exception:
        return False


def tuplerat(t):
    if t[0] == "c" and isinstance(t[1], (int, float)):
        return Rat.c(t[1])
    if t[0] == "b+":
        return tuplerat(t[1]) + tuplerat(t[2])
    if t[0] == "b*":
        return tuplerat(t[1]) * tuplerat(t[2])
    return Rat.leaf(t)


def polyeq(r, t):
    return r == tuplerat(t)


def divisions(P, ctx, fn):
    G = graph(P, fn)
    MF = MustFacts(G)
    par = fn.parents()
    for nd in G.stmts():
        n = nd.n()
        if n["k"] not in ("BinaryOperator", "CompoundAssignOperator") or n.get("op") not in ("/", "/=", "%", "%="):
            continue
        if nd.inst is not G.root:
            continue
        facts = set(MF.at(nd.i)) | set(ternary_facts(G, MF, nd.inst, nd.ref))
        div = n["ch"][1]
        r = nonzero(G, facts, nd.inst, div)
        where = nd.inst.where(nd.ref)
        what = ratexp_text(nd.inst, div)
        if r is True:
            ctx.ok("divisor", where, "%s is never zero here" % what)
        elif r is False:
            ctx.bad("divisor", where, "%s divides by %s, which can be zero" % (fn.fn, what), key="div|%s|%s" % (fn.fk, what))
        else:
            ctx.notes.append("%s: divisor not resolved" % where)
        if n["op"] in ("/",) and not isf(n.get("t", "")):
            ctx.bad("divisor", where, "%s computes the ratio with an integer division (truncates)" % fn.fn, key="intdiv|%s" % fn.fk)
    # products of counters must be formed in floating point (they exceed 64 bits for long sequences)
    for nd in G.stmts():
        n = nd.n()
        if n["k"] == "BinaryOperator" and n["op"] == "*" and nd.inst is G.root and not isf(n.get("t", "")) and "c" not in n:
            if all(leafcount(nd.inst, c) for c in n["ch"]):
                ctx.bad("product", nd.inst.where(nd.ref), "%s multiplies two counters as integers, which wraps for large counts" % fn.fn, key="intmul|%s" % fn.fk)
        elif n["k"] == "BinaryOperator" and n["op"] == "*" and nd.inst is G.root and isf(n.get("t", "")):
            ctx.ok("product", nd.inst.where(nd.ref), "in floating point")


def leafcount(inst, nid):
    return "c" not in inst.fn.nodes[nid]


def ratexp_text(inst, nid):
    return repr(rat(inst, nid))


def ternary_facts(G, MF, inst, nid):
    return []


def error_lists(P, ctx):
    """percentage of errors above the margin, mean, root mean square over all values"""
    for fn in P.methods_of("lv::StereoDispErrorMetrics"):
        nm = last(fn.fn)
        if not nm.startswith("Calc") or not fn.params or "vector" not in fn.params[0]["t"]:
            continue
        G = graph(P, fn)
        vec, mar = fn.params[0]["id"], [p["id"] for p in fn.params[1:]]
        fns = [fn] + [f for f in P.all() if f.kind == "lambda" and f.file == fn.file and fn.line <= f.line <= max(n["line"] for n in fn.nodes if n and n.get("line"))]
        for f in fns:
            for i, n in enumerate(f.nodes):
                if not n:
                    continue
                if n["k"] == "BinaryOperator" and n.get("op") in ("<", ">", "<=", ">=") and mar:
                    side = [any(f.nodes[j] and f.nodes[j]["k"] == "DeclRefExpr" and f.nodes[j].get("d") in mar for j in f.walk(x)) for x in n["ch"]]
                    if side.count(True) != 1:
                        continue
                    op = n["op"] if side[1] else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[n["op"]]
                    if op in (">", "<="):
                        ctx.ok("margin", f.where(i), "%s: strictly above the margin" % nm)
                    else:
                        ctx.bad("margin", f.where(i), "%s takes an error equal to the margin for one above it" % nm, key="margin|%s|strict" % nm)
                if n["k"] == "CallExpr" and last(n.get("fn", "")).split("<")[0] in ("accumulate", "reduce", "inner_product") and n.get("fn", "").startswith("std::"):
                    if n.get("t", "").replace("const ", "") in ("double", "float", "long double"):
                        ctx.ok("summed", f.where(i), "%s sums in %s" % (nm, n["t"]))
                    else:
                        ctx.bad("summed", f.where(i), "%s sums the errors in type '%s': fractions are lost" % (nm, n.get("t")), key="summed|%s" % nm)
        for nd in G.stmts():
            n = nd.n()
            if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ("/", "/="):
                r = rat(nd.inst, n["ch"][1])
                ls = list(r.leaves())
                if len(ls) == 1 and isinstance(ls[0], tuple) and ls[0][0] == "call" and last(ls[0][1]) == "size":
                    if r == Rat.leaf(ls[0]):
                        ctx.ok("divisor", nd.inst.where(nd.ref), "%s divides by the number of values" % nm)
                    else:
                        ctx.bad("divisor", nd.inst.where(nd.ref), "%s divides by %r instead of the number of values" % (nm, r), key="divisor|%s" % nm)


def stereo(P, ctx):
    """error margins of the stereo metrics"""
    error_lists(P, ctx)
    want = {"dBadPercent_05": 0.5, "dBadPercent_1": 1.0, "dBadPercent_2": 2.0, "dBadPercent_4": 4.0}
    for fn in P.methods_of("lv::StereoDispErrorMetrics"):
        if fn.kind != "ctor" or len(fn.params) != 1 or "StereoDispErrors" not in fn.params[0]["t"] or "Metrics" in fn.params[0]["t"]:
            continue
        for i in fn.d.get("inits", []):
            if i.get("field") in want:
                cs = [fn.nodes[x] for x in fn.walk(i["init"]) if fn.nodes[x]["k"] == "FloatingLiteral"]
                if len(cs) == 1:
                    try:
                        g = float(cs[0].get("fc"))
                    except Exception:
                        continue
                    if abs(g - want[i["field"]]) < 1e-9:
                        ctx.ok("margin", fn.where(i["init"]), "%s above %s" % (i["field"], g))
                    else:
                        ctx.bad("margin", fn.where(i["init"]), "%s counts errors above %s instead of %s" % (i["field"], g, want[i["field"]]), key="margin|%s" % i["field"])


# ------------------------------------------------------------------------------------------------ M03
VALS = dict(pos=255, neg=0, oos=85, unk=170, sha=50)


def classify(inp, gt, roi):
    if gt in (VALS["oos"], VALS["unk"]) or roi == 0:
        return {"nDC": 1}
    r = {}
    if inp == VALS["pos"]:
        r["nTP" if gt == VALS["pos"] else "nFP"] = 1
        if gt == VALS["sha"]:
            r["nSE"] = 1
    else:
        r["nFN" if gt == VALS["pos"] else "nTN"] = 1
    return r


def mat_of(G, inst, nid, params, d=0, cond=None):
    """which image parameter a pixel expression reads, following pointers and locals"""
    if nid is None or nid < 0 or d > 25:
        return None
    n = inst.fn.nodes[nid]
    k = n["k"]
    if k == "DeclRefExpr":
        if n.get("dk") not in ("local", "parm"):
            return None
        owner, info = inst.find_decl(n["d"])
        if owner is None:
            return None
        if (owner is G.root or (owner.id, n["d"]) in params) and n["d"] in params:
            return params[n["d"]]
        if n["d"] in owner.bind and owner.bind[n["d"]]:
            return mat_of(G, owner.bind[n["d"]][0], owner.bind[n["d"]][1], params, d + 1, cond)
        if info and info.get("init", -1) >= 0:
            return mat_of(G, owner, info["init"], params, d + 1, cond)
        return None
    if k == "ConditionalOperator":
        c = cond(inst, n["ch"][0]) if cond else None
        if c is not None:
            return mat_of(G, inst, n["ch"][1 if c else 2], params, d + 1, cond)
        r = {mat_of(G, inst, c, params, d + 1, cond) for c in n["ch"][1:3]} - {None}
        return r.pop() if len(r) == 1 else None
    if k in CALLS:
        nm = last(n.get("fn", ""))
        if nm.split("<")[0] in ("at", "ptr", "operator()", "operator[]", "begin", "operator*", "operator->", "row"):
            obj, args = callee_args(n)
            if obj:
                m = inst.fn.nodes[obj[1]]
                if obj[0] == "member" and m["k"] == "MemberExpr":
                    return mat_of(G, inst, m["ch"][0], params, d + 1, cond) if m.get("ch") else None
                return mat_of(G, inst, obj[1], params, d + 1, cond)
        return None
    if k == "MemberExpr":
        return mat_of(G, inst, n["ch"][0], params, d + 1, cond) if n.get("ch") and n.get("n") in ("data",) else None
    if k in CASTS or k in ("UnaryOperator", "ArraySubscriptExpr", "ParenExpr", "MaterializeTemporaryExpr"):
        return mat_of(G, inst, n["ch"][0], params, d + 1, cond) if n.get("ch") else None
    if k == "BinaryOperator" and n["op"] in ("+", "-"):
        return mat_of(G, inst, n["ch"][0], params, d + 1, cond) or mat_of(G, inst, n["ch"][1], params, d + 1, cond)
    return None


def is_pixel(inst, nid):
    n = inst.fn.nodes[nid]
    k = n["k"]
    t = n.get("t", "").replace("const ", "").replace("&", "").strip()
    if t not in ("unsigned char", "uchar", "unsigned char"):
        return False
    if k == "ArraySubscriptExpr" or (k == "UnaryOperator" and n["op"] == "*"):
        return True
    if k in CALLS and last(n.get("fn", "")).split("<")[0] in ("at", "operator()", "operator*", "operator[]"):
        return True
    return False


def m03(P, ctx):
    fl = fields(P, "lv::BinClassif")
    for fn in P.named("lv::BinClassif::accumulate"):
        if len(fn.params) != 3:
            continue
        G = graph(P, fn)
        params = {fn.params[0]["id"]: "in", fn.params[1]["id"]: "gt", fn.params[2]["id"]: "roi"}
        consts = set(VALS.values())
        for i in range(len(fn.nodes)):
            c = fn.nodes[i].get("c") if fn.nodes[i] else None
            if isinstance(c, int) and 0 <= c <= 255:
                consts.add(c)
        samples = sorted({x for c in consts for x in (c - 1, c, c + 1) if 0 <= x <= 255})
        pix = {}
        for gi in G.insts:
            for nid in range(len(gi.fn.nodes)):
                if gi.fn.nodes[nid] and is_pixel(gi, nid):
                    m = mat_of(G, gi, nid, params)
                    if m:
                        pix[(gi.id, nid)] = m
        emp = {}
        for gi in G.insts:
            for nid, n in enumerate(gi.fn.nodes):
                if n and n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "empty":
                    m = gi.fn.nodes[n["ch"][0]]
                    if m["k"] == "MemberExpr" and m.get("ch"):
                        x = mat_of(G, gi, m["ch"][0], params)
                        if x:
                            emp[(gi.id, nid)] = x
        if not {"in", "gt"} <= set(pix.values()):
            ctx.notes.append("%s: pixel reads not resolved" % fn.where())
            continue
        incs = increments(G, fl)
        if incs is None:
            ctx.notes.append("%s: counter updates not resolved" % fn.where())
            continue
        bad = None
        ncell = 0
        for roi in (None, 0, 1, 255):
            for gt in samples:
                for inp in sorted({0, 1, 127, 128, 254, 255} | {c for c in samples}):
                    env = {"in": inp, "gt": gt, "roi": roi}

                    def leaf(inst, nid):
                        x = pix.get((inst.id, nid))
                        if x:
                            return env[x]
                        x = emp.get((inst.id, nid))
                        if x:
                            return int(env[x] is None)
                        return None
                    C = CProp(G, leaf)
                    ncell += 1
                    eff, sure = {}, True
                    for nd, f, amount, loops in incs:
                        if nd.i not in C.IN or not loops:
                            continue
                        a = amount if isinstance(amount, int) else C.ev(nd.inst, amount[1], C.IN[nd.i])
                        if a is None:
                            sure = False
                            break
                        if a:
                            eff[f] = eff.get(f, 0) + a
                    inner = undecided_in_body(G, C, incs)
                    if not sure or inner:
                        bad = "?"
                        break
                    w = classify(inp, gt, roi)
                    if eff != w:
                        bad = (inp, gt, roi, eff, w)
                        break
                if bad:
                    break
            if bad:
                break
        if bad == "?":
            ctx.notes.append("%s: classification depends on more than the three pixel values" % fn.where())
        elif bad:
            ctx.bad("classified", fn.where(), "a pixel with output %d, ground truth %d, ROI %s is counted as %s instead of %s" % (bad[0], bad[1], bad[2], fmt(bad[3]), fmt(bad[4])), key="classify|cpu")
        else:
            ctx.ok("classified", fn.where(), "%d cells of output x ground truth x ROI values" % ncell)
        whole_image(ctx, G, incs, emp, fn)
        same_pixel(ctx, G, fn)
        # without ground truth every pixel is 'dont care'
        def leaf2(inst, nid):
            x = emp.get((inst.id, nid))
            return int(x == "gt") if x else None
        C = CProp(G, leaf2)
        eff = [(f, amount, nd) for nd, f, amount, loops in incs if nd.i in C.IN]
        if [f for f, _, _ in eff] == ["nDC"] and not isinstance(eff[0][1], int):
            v = val(eff[0][2].inst, eff[0][1][1])
            if any(l[0] == "call" and last(l[1]) in ("area", "total") for l in leaves(v)):
                ctx.ok("no-ground-truth", eff[0][2].inst.where(eff[0][2].ref), "all pixels are 'dont care'")
            else:
                ctx.notes.append("no-ground-truth amount not resolved")
        elif eff:
            ctx.bad("no-ground-truth", fn.where(), "without ground truth the counters %s change" % sorted({f for f, _, _ in eff}), key="classify|nogt")
        else:
            ctx.bad("no-ground-truth", fn.where(), "without ground truth no pixel is counted", key="classify|nogt")
        grid(ctx, G, incs)
    raw_images(P, ctx)
    stereo_pixels(P, ctx)
    validity(P, ctx)
    glsl(P, ctx)


def whole_image(ctx, G, incs, emp, fn):
    """with ground truth, no counter but 'dont care' is raised by the number of pixels at once"""
    C = CProp(G, lambda inst, nid: 0 if emp.get((inst.id, nid)) == "gt" else None)
    for nd, f, amount, loops in incs:
        if loops or f == "nDC" or isinstance(amount, int) or nd.i not in C.IN:
            continue
        v = val(nd.inst, amount[1])
        if v[0] == "call" and last(v[1]) in ("area", "total"):
            ctx.bad("classified", nd.inst.where(nd.ref), "%s counts all pixels of an image as '%s' at once, whatever their ground truth and ROI values are" % (fn.fn, f), key="classify|whole|%s" % f)


def same_pixel(ctx, G, fn):
    """the values compared in one iteration are those of one pixel: all row pointers are made for one row and read at one column"""
    rows, cols = {}, {}
    root = G.root
    f = root.fn
    for i, n in enumerate(f.nodes):
        if not n:
            continue
        ls = enclosing_loops(f, i)
        if not ls:
            continue
        if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] == "ptr" and len(n["ch"]) == 2:
            rows.setdefault(ls[0], []).append((i, val(root, n["ch"][1])))
        elif n["k"] == "ArraySubscriptExpr" and len(ls) > 1 and f.nodes[strip(f, n["ch"][0])].get("k") == "DeclRefExpr":
            cols.setdefault(ls[0], []).append((i, val(root, n["ch"][1])))
    for what, d in (("row", rows), ("column", cols)):
        for l, xs in d.items():
            vs = {v for _, v in xs}
            if len(vs) == 1:
                ctx.ok("one-pixel", f.where(l), "%d reads at one %s" % (len(xs), what))
            else:
                c = [(i, v) for i, v in xs if v[0] == "c"]
                odd = c or sorted(xs, key=lambda x: sum(1 for y in xs if y[1] == x[1]))[:1]
                ctx.bad("one-pixel", f.where(odd[0][0]), "%s compares values of different pixels: this one is taken from another %s than the others of the iteration" % (fn.fn, what), key="onepixel|%s|%s" % (fn.fk, what))


def error_value(ctx, G, fn, e):
    """the recorded error is the absolute difference of output and ground truth"""
    n = e.n()
    a = n["ch"][1]
    v = val(e.inst, a)
    where = e.inst.where(e.ref)
    if v[0] == "call" and last(v[1]).split("<")[0] in ("abs", "fabs", "fabsf") and len(v) == 3 and v[2][0] == "b-":
        x, y = v[2][1:3]
        if x == y:
            ctx.bad("error-value", where, "%s records a value's difference with itself" % fn.fn, key="errval|%s" % fn.fk)
        else:
            ctx.ok("error-value", where, "absolute difference")
    elif v[0] in ("b-", "b+") or v[0] == "call" and last(v[1]).split("<")[0] in ("abs", "fabs", "fabsf") and len(v) == 3 and v[2][0] == "b+":
        ctx.bad("error-value", where, "%s does not record the absolute difference of output and ground truth" % fn.fn, key="errval|%s" % fn.fk)
    else:
        ctx.notes.append("%s: recorded error not resolved: %r" % (where, v))


def fmt(e):
    return "+".join("%s%s" % (k, "" if v == 1 else "(x%d)" % v) for k, v in sorted(e.items())) or "nothing"


def increments(G, fl):
    """[(node, counter, amount const or nid, enclosing loops)]; locals later added to a counter count as that counter"""
    out = []
    alias = {}
    for w in writes(G, fl):
        nd, base, f, op, rhs = w
        loops = [l for i, c in chain(nd.inst) for l in enclosing_loops(i.fn, c if c is not None else nd.ref)] if nd.inst is G.root else all_loops(nd)
        if op == "++":
            out.append((nd, f, 1, loops))
        elif op == "+=":
            n = nd.inst.fn.nodes[strip(nd.inst.fn, rhs)]
            if n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in mutated(nd.inst.fn):
                alias[(nd.inst.id, n["d"])] = f
                continue
            out.append((nd, f, nd.inst.fn.nodes[rhs]["c"] if "c" in nd.inst.fn.nodes[rhs] else ("n", rhs), loops))
        else:
            return None
    if alias:
        for nd in G.stmts():
            n = nd.n()
            if n["k"] == "UnaryOperator" and n["op"] in ("++", "post++") or n["k"] == "CompoundAssignOperator" and n["op"] == "+=":
                p = path(nd.inst, n["ch"][0])
                if p[0] == "L" and (p[1], p[2]) in alias:
                    amt = 1 if n["k"] == "UnaryOperator" else (nd.inst.fn.nodes[n["ch"][1]].get("c", ("n", n["ch"][1])))
                    out.append((nd, alias[(p[1], p[2])], amt, all_loops(nd)))
    return out


def all_loops(nd):
    out = enclosing_loops(nd.inst.fn, nd.ref)
    i = nd.inst
    while i.caller is not None:
        if i.callnid is not None:
            out += enclosing_loops(i.caller.fn, i.callnid)
        i = i.caller
    return out


def undecided_in_body(G, C, incs):
    """an undecided branch inside the pixel loop body (other than the loop conditions)"""
    inner = set()
    for nd, f, a, loops in incs:
        if loops and nd.inst is G.root:
            l = loops[0]
            body = G.root.fn.nodes[l].get("parts", {}).get("body", -1)
            if body is not None and body >= 0:
                inner |= set(G.root.fn.walk(body))
    for iid, nid in C.undecided:
        if iid == G.root.id and nid in inner:
            return True
    return False


def grid(ctx, G, incs):
    """the pixel loops visit every row and every column exactly once"""
    seen = set()
    for nd, f, a, loops in incs:
        for l in loops if nd.inst is G.root else []:
            if l in seen:
                continue
            seen.add(l)
            r = covers_all(G.root, l)
            where = G.root.where(l)
            if r is None:
                ctx.ok("every-pixel", where, "loop covers the whole extent")
            elif r == "?":
                ctx.notes.append("%s: pixel loop not resolved" % where)
            else:
                ctx.bad("every-pixel", where, "the pixel loop %s" % r, key="grid|%s" % r)


def raw_images(P, ctx):
    """images read through raw row offsets were checked for type, continuity and size first"""
    for fn in P.named("lv::BinClassif::accumulate") + P.named("lv::BinClassif::getColoredMask") + P.named("lv::StereoDispErrors::accumulate") + P.named("lv::StereoDispErrors::getColoredMask"):
        mats = [p for p in fn.params if "cv::Mat" in p["t"]]
        if len(mats) < 2:
            continue
        G = graph(P, fn)
        MF = MustFacts(G)
        for p in mats:
            pid = ("P", G.root.id, p["id"], p["name"])
            uses = [nd for nd in G.stmts() if nd.inst is G.root and nd.n()["k"] == "MemberExpr" and nd.n()["n"] == "data" and path(nd.inst, nd.ref) == ("M", pid, "data")]
            uses += [nd for nd in G.stmts() if nd.inst is G.root and nd.n()["k"] == "CXXMemberCallExpr" and last(nd.n().get("fn", "")).split("<")[0] in ("ptr", "at") and val(nd.inst, nd.ref)[2:3] == (pid,)]
            for nd in uses[:1]:
                facts = MF.at(nd.i)
                where = nd.inst.where(nd.ref)
                raw = nd.n()["k"] == "MemberExpr"
                need = {"type": lambda a: known_type(a, pid)}
                if raw:
                    need["continuity"] = lambda a: a[0] == "true" and a[1][0] == "call" and last(a[1][1]) == "isContinuous" and a[1][2] == pid
                if p is not mats[0]:
                    need["size"] = lambda a: a[0] in ("==", "true") and (a[0] == "==" or a[1][0] == "op==") and any(l == ("M", pid, "size") for x in a[1:] for l in leaves(x)) and any(l[0] == "M" and l[2] == "size" and l[1] != pid for x in a[1:] for l in leaves(x))
                for what, pred in need.items():
                    if holds(facts, pred, pid):
                        ctx.ok("image-checked", where, "%s of %s" % (what, p["name"]))
                    else:
                        ctx.bad("image-checked", where, "%s reads '%s' by raw offsets although its %s was not checked" % (fn.fn, p["name"], what), key="raw|%s|%s|%s" % (fn.fn, p["name"], what))


def known_type(a, pid):
    return a[0] == "==" and any(x[0] == "call" and last(x[1]) == "type" and x[2] == pid for x in a[1:3])


def holds(facts, pred, pid):
    for a in facts:
        if a[0] == "or":
            arms = [a[1], a[2]]
            ok = []
            for arm in arms:
                empty = any(x[0] == "true" and x[1][0] == "call" and last(x[1][1]) == "empty" and x[1][2] == pid for x in arm)
                ok.append(empty or holds(arm, pred, pid))
            if all(ok):
                return True
        elif len(a) >= 2 and a[0] in ("true", "false", "==", "!=", "<", "<=") and all(isinstance(x, tuple) for x in a[1:]):
            try:
                if pred(a):
                    return True
            except (IndexError, TypeError):
                pass
    return False


def stereo_pixels(P, ctx):
    """every disparity pixel yields either one error value or one 'dont care'"""
    for fn in P.named("lv::StereoDispErrors::accumulate"):
        if len(fn.params) != 3:
            continue
        G = graph(P, fn)
        errs, dcs = [], []
        for nd in G.stmts():
            n = nd.n()
            if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("push_back", "emplace_back") and sub(path(nd.inst, nd.ref), ("M", ("this",), "vErrors")) and all_loops(nd):
                errs.append(nd)
        for w in writes(G, {"nDC": 1}):
            if w[3] == "++" and all_loops(w[0]):
                dcs.append(w[0])
        if len(errs) != 1 or len(dcs) != 1:
            ctx.notes.append("%s: stereo counting not resolved (%d, %d)" % (fn.where(), len(errs), len(dcs)))
            continue
        e, d = errs[0], dcs[0]
        # exclusive and exhaustive per iteration: from the inner loop's body entry, every path passes exactly one of them
        loop = enclosing_loops(e.inst.fn, e.ref)[0]
        r = once_per_iteration(G, e.inst, loop, [e.i, d.i])
        where = e.inst.where(e.ref)
        if r is None:
            ctx.ok("classified", where, "each disparity is either an error value or a 'dont care'")
        else:
            ctx.bad("classified", where, "%s: a pixel can be counted %s" % (fn.fn, r), key="stereo|once")
        stereo_cells(P, ctx, fn, G, e, d)
        same_pixel(ctx, G, fn)
        error_value(ctx, G, fn, e)
        for l in all_loops(e):
            c = covers_all(e.inst, l)
            if c not in (None, "?"):
                ctx.bad("every-pixel", e.inst.where(l), "the pixel loop %s" % c, key="stereogrid|%s" % c)
            else:
                ctx.ok("every-pixel", e.inst.where(l), "loop covers the whole extent")


LIMITS = {0: (0, 255), 1: (-128, 127), 2: (0, 65535), 3: (-32768, 32767), 4: (-2147483648, 2147483647), 5: (-3.4028234663852886e+38, 3.4028234663852886e+38)}
TNAME = {0: "8UC1", 1: "8SC1", 2: "16UC1", 3: "16SC1", 4: "32SC1", 5: "32FC1"}


def local_sources(G):
    """Mat locals -> nodes they are copied or converted from"""
    out = {}
    for gi in G.insts:
        for nid, n in enumerate(gi.fn.nodes):
            if not n:
                continue
            if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("convertTo", "copyTo") and len(n["ch"]) > 1:
                m = gi.fn.nodes[n["ch"][0]]
                if m["k"] == "MemberExpr" and m.get("ch"):
                    out.setdefault(path(gi, n["ch"][1]), []).append((gi, m["ch"][0]))
            elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) == 3:
                out.setdefault(path(gi, n["ch"][1]), []).append((gi, n["ch"][2]))
    return out


def image_of(G, inst, nid, params, src, d=0):
    m = mat_of(G, inst, nid, params)
    if m or d > 3:
        return m
    p = path(inst, nid)
    while p[0] == "new" and len(p[2]) == 1:
        p = p[2][0]
    r = {image_of(G, i, x, params, src, d + 1) for i, x in src.get(p, ())}
    return r.pop() if len(r) == 1 else None


def pixel_value(G, C, inst, nid, env, params, src, st, d=0):
    """per-pixel value of an image expression for one ground truth value (None: not resolved)"""
    if nid is None or nid < 0 or d > 30:
        return None
    n = inst.fn.nodes[nid]
    k = n["k"]
    if k in CASTS or k in ("MaterializeTemporaryExpr", "ExprWithCleanups", "ParenExpr"):
        return pixel_value(G, C, inst, n["ch"][0], env, params, src, st, d + 1)
    m = image_of(G, inst, nid, params, src) if k == "DeclRefExpr" else None
    if m == "gt":
        return env
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        owner, info = inst.find_decl(n["d"])
        if owner is not None and n["d"] in owner.bind and owner.bind[n["d"]]:
            return pixel_value(G, C, owner.bind[n["d"]][0], owner.bind[n["d"]][1], env, params, src, st, d + 1)
        p = path(inst, nid)
        if p in st:
            return st[p]
        if info and info.get("init", -1) >= 0:
            return pixel_value(G, C, owner, info["init"], env, params, src, st, d + 1)
        return None
    if k in CTORS and len(n.get("ch", [])) == 1:
        return pixel_value(G, C, inst, n["ch"][0], env, params, src, st, d + 1)
    if k == "CXXMemberCallExpr" and last(n.get("fn", "")).startswith("operator "):
        mm = inst.fn.nodes[n["ch"][0]]
        return pixel_value(G, C, inst, mm["ch"][0], env, params, src, st, d + 1) if mm.get("ch") else None
    if k == "CXXOperatorCallExpr":
        op = n["op"]
        a = n["ch"][1:]
        if len(a) == 2 and op in NEG:
            x, y = [operand(G, C, inst, q, env, params, src, st, d + 1) for q in a]
            if x is None or y is None:
                return None
            return 255 if {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op] else 0
        if len(a) == 2 and op in ("&", "|"):
            x, y = [operand(G, C, inst, q, env, params, src, st, d + 1) for q in a]
            if op == "&" and (x == 0 or y == 0):
                return 0
            if x is None or y is None or isinstance(x, float) or isinstance(y, float):
                return None
            return x & y if op == "&" else x | y
        if len(a) == 1 and op in ("~",):
            x = operand(G, C, inst, a[0], env, params, src, st, d + 1)
            return None if x is None or isinstance(x, float) else 255 - x
        return None
    if k in CALLS and nid in inst.calls:
        ci = inst.calls[nid]
        vals = set()
        for rn in ci.rets:
            if rn.i in C.IN:
                ch = rn.n().get("ch", [])
                vals.add(pixel_value(G, C, ci, ch[0], env, params, src, st, d + 1) if ch else None)
        return vals.pop() if len(vals) == 1 else None
    return None


def operand(G, C, inst, nid, env, params, src, st, d):
    n = inst.fn.nodes[nid]
    if "c" in n:
        return n["c"]
    if n.get("fc") is not None:
        return n["fc"]
    if "Mat" in n.get("t", "") or "InputArray" in n.get("t", ""):
        return pixel_value(G, C, inst, nid, env, params, src, st, d)
    v = C.ev(inst, nid, {})
    if v is None and n.get("ch") and n["k"] in CASTS:
        return operand(G, C, inst, n["ch"][0], env, params, src, st, d + 1)
    return v


def validity(P, ctx):
    """which ground truth disparities are valid: everything but the type's largest value and negative ones"""
    done = 0
    for fn in P.all():
        if fn.rec != "lv::StereoDispErrors" or len(fn.params) < 2 or "cv::Mat" not in fn.params[0]["t"] or "cv::Mat" not in fn.params[1]["t"]:
            continue
        G = graph(P, fn)
        params = {fn.params[0]["id"]: "in", fn.params[1]["id"]: "gt"}
        for p in fn.params[2:]:
            if "cv::Mat" in p["t"]:
                params[p["id"]] = "roi"
        src = local_sources(G)
        types, emp = {}, {}
        for gi in G.insts:
            for nid, n in enumerate(gi.fn.nodes):
                if n and n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("type", "depth", "channels", "empty"):
                    m = gi.fn.nodes[n["ch"][0]]
                    if m["k"] == "MemberExpr" and m.get("ch") and mat_of(G, gi, m["ch"][0], params) == "gt":
                        types[(gi.id, nid)] = last(n["fn"])
        if not any(v in ("type", "depth") for v in types.values()):
            continue
        order = G.rpo()
        for T, (lo, hi) in LIMITS.items():
            C = CProp(G, lambda inst, nid: {"type": T, "depth": T, "channels": 1, "empty": 0}.get(types.get((inst.id, nid))))
            masks = {}
            bad = unk = None
            n_used = 0
            for v in ([lo, -1] if lo < 0 else []) + [0, 1, hi // 2, hi - 1 if T != 5 else 1e30, hi]:
                st = {}
                res = None
                for u in order:
                    nd = G.nodes[u]
                    if u not in C.IN or nd.kind != "stmt":
                        continue
                    n = nd.n()
                    if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("=", "&=", "|=") and len(n["ch"]) == 3 and "Mat" in nd.inst.fn.nodes[n["ch"][1]].get("t", ""):
                        r = n["ch"][2]
                        if not has_cmp(G, nd.inst, r, params, src) and path(nd.inst, n["ch"][1]) not in st:
                            continue
                        tgt = path(nd.inst, n["ch"][1])
                        x = operand(G, C, nd.inst, r, v, params, src, st, 0)
                        if n["op"] == "&=":
                            x = 0 if st.get(tgt) == 0 or x == 0 else (None if x is None or st.get(tgt) is None else x & st[tgt])
                        elif n["op"] == "|=":
                            x = None if x is None or st.get(tgt) is None else x | st[tgt]
                        st[tgt] = x
                        res = (x, nd.inst.where(nd.ref), tgt)
                    elif n["k"] == "DeclStmt":
                        for dd in n["decls"]:
                            if dd.get("init", -1) >= 0 and "Mat" in dd.get("t", "") and has_cmp(G, nd.inst, dd["init"], params, src):
                                x = pixel_value(G, C, nd.inst, dd["init"], v, params, src, st)
                                st[("L", nd.inst.id, dd["id"], dd["name"])] = x
                                res = (x, nd.inst.where(nd.ref), None)
                if res is None or res[0] is None:
                    unk = v
                    break
                want = v != hi and v >= 0
                if bool(res[0]) != want and not bad:
                    bad = (res[1], v, want)
            if unk is not None:
                ctx.notes.append("%s: validity of %s ground truth not resolved" % (fn.where(), TNAME[T]))
            elif bad:
                ctx.bad("valid-gt", bad[0], "%s %s the ground truth disparity %s of a %s map" % (fn.fn, "rejects" if bad[2] else "accepts", bad[1], TNAME[T]), key="validgt|%s|%s" % (last(fn.fn), TNAME[T]))
            else:
                ctx.ok("valid-gt", fn.where(), "%s: ground truth values valid exactly when non-negative and not the maximum" % TNAME[T])


def has_cmp(G, inst, nid, params, src):
    for x in inst.fn.walk(nid):
        n = inst.fn.nodes[x]
        if n and n["k"] == "CXXOperatorCallExpr" and n.get("op") in NEG and "MatExpr" in n.get("t", "") and any(image_of(G, inst, y, params, src) == "gt" for y in n["ch"][1:]):
            return True
        if n and n["k"] in CALLS and x in inst.calls and "Mat" in n.get("t", ""):
            ci = inst.calls[x]
            for rn in ci.rets:
                ch = rn.n().get("ch", [])
                if ch and has_cmp(G, ci, ch[0], params, src):
                    return True
    return False


def stereo_cells(P, ctx, fn, G, e, d):
    """an error value is recorded exactly for pixels with valid ground truth inside the ROI"""
    params = {fn.params[0]["id"]: "in", fn.params[1]["id"]: "gt", fn.params[2]["id"]: "roi"}
    src = local_sources(G)
    for gi in G.insts:
        for nid, n in enumerate(gi.fn.nodes):
            if n and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) == 3 and has_cmp(G, gi, n["ch"][2], params, src):
                t = path(gi, n["ch"][1])
                if t[0] == "L":
                    params[t[2]] = "valid"
                    params[(t[1], t[2])] = "valid"
            elif n and n["k"] == "DeclStmt":
                for dd in n["decls"]:
                    if dd.get("init", -1) >= 0 and "Mat" in dd.get("t", "") and has_cmp(G, gi, dd["init"], params, src):
                        params[dd["id"]] = "valid"
                        params[(gi.id, dd["id"])] = "valid"
    emp = {}
    for gi in G.insts:
        for nid, n in enumerate(gi.fn.nodes):
            if n and n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "empty":
                m = gi.fn.nodes[n["ch"][0]]
                if m["k"] == "MemberExpr" and m.get("ch"):
                    x = mat_of(G, gi, m["ch"][0], params)
                    if x in ("roi", "gt"):
                        emp[(gi.id, nid)] = x
    bad = None
    for roi in (None, 0, 1, 255):
        for valid in (0, 255):
            for out in (0,):
                def leaf0(inst, nid):
                    x = emp.get((inst.id, nid))
                    return None if x is None else int(x == "roi" and roi is None)
                C0 = CProp.__new__(CProp)
                C0.G, C0.leaf, C0.IN, C0.memo, C0.undecided = G, leaf0, {}, {}, set()
                cond = lambda inst, nid: C0.ev(inst, nid, {})

                def leaf(inst, nid):
                    r = leaf0(inst, nid)
                    if r is not None:
                        return r
                    if inst.fn.nodes[nid] and is_pixel(inst, nid):
                        m = mat_of(G, inst, nid, params, 0, cond)
                        if m == "valid":
                            return valid
                        if m == "roi" and roi is not None:
                            return roi
                    return None
                C = CProp(G, leaf)
                want = bool(valid) and (roi is None or roi != 0)
                got = (e.i in C.IN, d.i in C.IN)
                if got == (True, True):
                    ctx.notes.append("%s: which disparities count is not resolved (ROI %s, valid %s)" % (fn.where(), roi, valid))
                    return
                if got != (want, not want) and bad is None:
                    bad = (valid, roi, got)
    if bad:
        ctx.bad("classified", e.inst.where(e.ref), "%s: a pixel with %s ground truth and ROI value %s is %s" % (fn.fn, "valid" if bad[0] else "invalid", bad[1], "evaluated" if bad[2][0] else "not evaluated"), key="stereo|cells")
    else:
        ctx.ok("classified", e.inst.where(e.ref), "errors are recorded exactly for valid ground truth inside the ROI")


def once_per_iteration(G, inst, loop, marks):
    fn = inst.fn
    n = fn.nodes[loop]
    body = set(fn.walk(n["parts"]["body"]))
    inner = [nd for nd in G.nodes if owner_ref(nd, inst) in body]
    ids = {nd.i for nd in inner}
    # nodes without a place of their own in the tree (joins of empty blocks, split declarations) that lie between nodes of the body
    cut = set()
    for part in ("cond", "inc"):
        if isinstance(n["parts"].get(part), int) and n["parts"][part] >= 0:
            cut |= set(fn.walk(n["parts"][part]))
    cutn = {nd.i for nd in G.nodes if nd.inst is inst and nd.kind == "stmt" and nd.ref in cut}

    def reach(start, edges):
        seen, todo = set(), list(start)
        while todo:
            for v in edges.get(todo.pop(), ()):
                if v not in seen and v not in cutn:
                    seen.add(v)
                    todo.append(v)
        return seen
    fw, bw = {}, {}
    for nd in G.nodes:
        for v, _ in nd.succ:
            fw.setdefault(nd.i, []).append(v)
            bw.setdefault(v, []).append(nd.i)
    ids |= reach(ids, fw) & reach(ids, bw)
    cb = n["parts"].get("cond")
    entries = [v for nd in G.nodes for v, c in nd.succ if nd.i not in ids and v in ids]
    # count marks along paths inside the body: states 0,1,2
    seen = set()
    st = [(v, 0) for v in set(entries)] or [(min(ids), 0)]
    res = None
    while st:
        u, k = st.pop()
        if (u, k) in seen:
            continue
        seen.add((u, k))
        if u in marks:
            k += 1
        if k > 1:
            return "twice"
        for v, c in G.nodes[u].succ:
            if v in ids:
                st.append((v, k))
            elif G.nodes[v].kind != "exit" and k == 0 and not throws(G, u):
                res = "not at all"
    return res


def throws(G, u):
    nd = G.nodes[u]
    return nd.kind == "stmt" and nd.n()["k"] == "CXXThrowExpr"


def owner_ref(nd, inst):
    i, r = nd.inst, nd.ref
    if nd.kind == "join" and i is inst:
        # a block's join node belongs where its first element is
        b = i.fn.cfg.get(nd.ref)
        if b:
            for e in b["el"]:
                if isinstance(e, int) and e >= 0:
                    return e
            if b.get("cond") is not None:
                return b["cond"]
        return None
    while i is not inst and i is not None:
        r = i.callnid
        i = i.caller
    return r if i is inst and isinstance(r, int) else None


# ------------------------------------------------------------------------------------------------ GLSL twin
TOK = re.compile(r"\s*(//[^\n]*|[A-Za-z_]\w*|\d+|&&|\|\||==|!=|<=|>=|[-+*/<>!=(){};,.?:])")


def glsl(P, ctx):
    for fn in P.named("lv::GLBinaryClassifierEvaluator::getComputeShaderSource"):
        lits = []
        for i in fn.walk():
            n = fn.nodes[i]
            if n["k"] == "StringLiteral":
                lits.append((n.get("line", 0), i, n.get("v", "")))
        text = "".join(v for _, _, v in lits if "atomicCounterIncrement" in v or "imageLoad" in v)
        m = re.search(r"void main\(\)\s*\{(.*)", text, re.S)
        if not m:
            ctx.notes.append("%s: evaluation shader not found" % fn.where())
            continue
        try:
            toks = [t for t in TOK.findall(m.group(1)) if not t.startswith("//")]
            prog, _ = parse_block(toks, 0)
        except Exception as e:
            ctx.notes.append("%s: evaluation shader not parsed (%s)" % (fn.where(), e))
            continue
        names = {"VAL_POSITIVE": 255, "VAL_NEGATIVE": 0, "VAL_OUTOFSCOPE": 85, "VAL_UNKNOWN": 170, "VAL_SHADOW": 50}
        var = {}
        for nm, img in re.findall(r"(\w+)\s*=\s*imageLoad\((\w+),", m.group(1)):
            var[nm] = {"imgInput": "in", "imgGT": "gt", "imgROI": "roi"}.get(img)
        bad = None
        cells = 0
        try:
            for roi in (0, 1, 255):
                for gt in (0, 1, 49, 50, 51, 84, 85, 86, 169, 170, 171, 254, 255):
                    for inp in (0, 1, 128, 254, 255):
                        env = dict(names)
                        for k, v in var.items():
                            env[k] = {"in": inp, "gt": gt, "roi": roi}.get(v)
                        eff = {}
                        run_block(prog, env, eff)
                        cells += 1
                        if eff != classify(inp, gt, roi):
                            bad = bad or (inp, gt, roi, eff, classify(inp, gt, roi))
        except Exception as e:
            ctx.notes.append("%s: evaluation shader not resolved (%s)" % (fn.where(), e))
            continue
        if bad:
            ctx.bad("classified-shader", fn.where(), "the evaluation shader counts a pixel with output %d, ground truth %d, ROI %s as %s instead of %s" % (bad[0], bad[1], bad[2], fmt(bad[3]), fmt(bad[4])), key="classify|glsl")
        else:
            ctx.ok("classified-shader", fn.where(), "%d cells" % cells)


def parse_block(t, i):
    out = []
    while i < len(t) and t[i] != "}":
        s, i = parse_stmt(t, i)
        out.append(s)
    return out, i


def parse_stmt(t, i):
    if t[i] == "{":
        b, i = parse_block(t, i + 1)
        return ("block", b), i + 1
    if t[i] == "if":
        assert t[i + 1] == "("
        d, j = 1, i + 2
        while d:
            d += {"(": 1, ")": -1}.get(t[j], 0)
            j += 1
        cond = t[i + 2:j - 1]
        a, j = parse_stmt(t, j)
        b = None
        if j < len(t) and t[j] == "else":
            b, j = parse_stmt(t, j + 1)
        return ("if", cond, a, b), j
    j = i
    while t[j] != ";":
        j += 1
    return ("expr", t[i:j]), j + 1


def run_block(prog, env, eff):
    for s in prog:
        run_stmt(s, env, eff)


def run_stmt(s, env, eff):
    if s[0] == "block":
        run_block(s[1], env, eff)
    elif s[0] == "if":
        if not any(x in s[1] for x in ("atomicCounterIncrement",)):
            c = " ".join({"&&": "and", "||": "or", "!": "not"}.get(x, x) for x in s[1])
            if eval(c, {"__builtins__": {}}, env):
                run_stmt(s[2], env, eff)
            elif s[3]:
                run_stmt(s[3], env, eff)
    elif s[0] == "expr" and s[1][0] == "atomicCounterIncrement":
        eff[s[1][2]] = eff.get(s[1][2], 0) + 1
