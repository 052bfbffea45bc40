"""Concurrency rules: lock discipline, wake-ups, work ownership, thread life cycle, deadlock freedom, OpenMP races."""
import re
from .flow import *
from .locks import *
from .ratexp import *
from . import metrics as MT
from .program import Program, rel

SYNC = re.compile(r"std::(mutex|recursive_mutex|condition_variable|condition_variable_any|thread|once_flag)\b")
TUS = ["modules/*/src/*.cpp", "modules/*/src/*/*.cpp", "apps/*/src/*.cpp", "samples/*/src/*.cpp", "apps/vptz/*/src/*.cpp"]
WIT = ["utils_templates.cpp"]


def is_atomic(t):
    return "std::atomic" in t or "atomic<" in t


def threaded_classes(P):
    """records that own both a mutex and worker thread handles"""
    out = []
    for n, r in P.recs.items():
        ts = [f["t"] for f in r["fields"]]
        if any(MUTEXT.match(t) for t in ts) and any("std::thread" in t for t in ts):
            out.append(n)
    return out


def is_join(nd):
    """does the node wait for a thread: join(), or a standard algorithm applying a function that joins each element"""
    return joins_at(nd.inst.fn, nd.n())


def joins_at(fn, n):
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "join":
        return "std::thread" in (n.get("rec") or "std::thread")
    if n["k"] == "CallExpr" and last(n.get("fn", "")).split("<")[0] == "for_each":
        for c in n["ch"]:
            for i in fn.walk(c):
                x = fn.nodes[i]
                if x["k"] == "LambdaExpr":
                    l = LAMS[0].get((fn.tu, x["lam"]))
                    if l and any(y and y["k"] == "CXXMemberCallExpr" and last(y.get("fn", "")) == "join" for y in l.nodes):
                        return True
                if x["k"] == "DeclRefExpr" and x.get("dk") == "func" and last(x.get("fn", x.get("n", ""))) == "join":
                    return True
    return False


LAMS = [{}]
PROG = [None]


def worker_entries(P, rec):
    """methods (or lambdas) of rec handed to a std::thread: address taken or captured next to a thread construction"""
    ent = []
    for f in P.all():
        owner = f.rec
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            if n["k"] == "DeclRefExpr" and n.get("dk") == "func" and n.get("rec") == rec:
                p = f.parents().get(i)
                if p is not None and f.nodes[p]["k"] == "UnaryOperator" and f.nodes[p].get("op") == "&":
                    t = P.get(n["fk"])
                    if t and t not in ent:
                        ent.append(t)
            if n["k"] == "LambdaExpr" and (f.rec == rec):
                # lambda given to a thread constructor / emplace_back of a thread container
                q, d = f.parents().get(i), 0
                while q is not None and d < 6:
                    m = f.nodes[q]
                    if m["k"] in CALLS and ("std::thread" in (m.get("t") or "") or "std::thread" in (m.get("rec") or "")):
                        t = P.lam.get((f.tu, n["lam"]))
                        if t is not None:
                            t = forwarded(P, t, rec) or t      # a lambda that only calls one method stands for that method
                        if t and t not in ent:
                            ent.append(t)
                        break
                    q = f.parents().get(q)
                    d += 1
    return ent


def forwarded(P, l, rec):
    cs = [n for n in l.nodes if n and n["k"] in CALLS]
    body = [n for n in l.nodes if n and n["k"].endswith("Stmt") and n["k"] not in ("CompoundStmt", "ReturnStmt")]
    if len(cs) == 1 and not body and cs[0].get("rec") == rec and cs[0].get("fk"):
        return P.get(cs[0]["fk"], l.tu)
    return None


def fields_touched(P, f, rec, seen=None):
    """names of rec's fields read or written by f, transitively through repository calls and lambdas"""
    seen = seen if seen is not None else set()
    if f.fk in seen and not f.fk.startswith("lambda#"):
        return set()
    seen.add(f.fk if not f.fk.startswith("lambda#") else (f.tu, f.fk))
    out = set()
    for n in f.nodes:
        if not n:
            continue
        if n["k"] == "MemberExpr" and n.get("dk") == "field" and n.get("rec") == rec:
            out.add(n["n"])
        if n["k"] == "LambdaExpr":
            l = P.lam.get((f.tu, n["lam"]))
            if l and (f.tu, l.fk) not in seen:
                out |= fields_touched(P, l, rec, seen)
        if n["k"] in CALLS and n.get("fk"):
            t = P.get(n["fk"], f.tu)
            if t and t.fk not in seen:
                out |= fields_touched(P, t, rec, seen)
    return out


def entry_methods(P, rec, workers):
    """methods that may be called from outside (public/protected), constructors, destructors, worker entries;
    private helpers are analysed through their callers"""
    r = P.recs[rec]
    out = []
    called = set()
    ms = [f for f in P.methods_of(rec)]
    for f in ms:
        for n in f.nodes:
            if n and n["k"] in CALLS and n.get("rec") == rec and n.get("fk") != f.fk:
                called.add(n["fk"])
    for l in P.lam.values():
        for n in l.nodes:
            if n and n["k"] in CALLS and n.get("rec") == rec:
                called.add(n["fk"])
    for f in ms:
        if f.d.get("defaulted"):
            continue
        if f in workers or f.access in (0, 1) or f.kind in ("ctor", "dtor") or f.fk not in called:
            out.append(f)
    return out + [w for w in workers if w not in out]


def inl_class(P, rec):
    """inline methods of the class, and lambdas; anything else that takes locks"""
    def f(inst, n, callee):
        if callee.rec and callee.rec.startswith("lv::unlock_guard<"):
            return False
        if callee.rec == rec or callee.kind == "lambda" or (callee.rec or "").startswith("lambda#"):
            return True
        # file-local helpers next to the class
        return callee.file.endswith(".cpp") and callee.file == inst.fn.file
    return f


class Quiet:
    """may-analysis: some path proves that no worker thread is alive (joined, never spawned, or the active flag is down)"""

    def __init__(self, G, init, flags, enabled=True):
        self.IN = {}
        if not enabled:
            return
        order = G.rpo()
        OUT = {}
        ch = True
        while ch:
            ch = False
            for u in order:
                nd = G.nodes[u]
                if u == G.entry.i:
                    s = init
                else:
                    s = None
                    for p, c in nd.pred:
                        if p not in OUT:
                            continue
                        o = OUT[p]
                        for a in edge_atoms(c):
                            if a[0] in ("true", "false") and a[1][0] == "M" and a[1][2] in flags:
                                o = a[0] == "false"
                        s = o if s is None else (s or o)
                    if s is None:
                        continue
                o = s
                if nd.kind == "stmt":
                    n = nd.n()
                    if is_join(nd):
                        o = True
                    elif n["k"] in CTORS and n.get("rec") == "std::thread" and n.get("pt"):
                        if not n.get("cpmv"):
                            o = False
                    elif n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("emplace_back", "push_back", "emplace") and "std::thread" in (n.get("rec") or ""):
                        o = False
                if self.IN.get(u) != s or OUT.get(u) != o:
                    self.IN[u] = s
                    OUT[u] = o
                    ch = True

    def at(self, u):
        return self.IN.get(u, False)


def active_flags(P, rec):
    return {f["name"] for f in P.recs[rec]["fields"] if f["t"] in ("bool", "std::atomic<bool>") and "ctive" in f["name"]} or \
           {f["name"] for f in P.recs[rec]["fields"] if f["t"] in ("bool", "std::atomic<bool>")}


def base_name(rec):
    return re.sub(r"<.*", "", rec)


# ---------------------------------------------------------------------------------------------------------------- C01
# confirmed by reading: plain classes (no worker threads of their own) whose state a mutex member protects
FROZEN = {"lv::Semaphore": {"m_nCount"}}
FROZEN_STATIC = {"lv::gl::Context::s_sLatestGLFWErrorMessage": "lv::gl::Context::s_oGLFWErrorMessageMutex"}


def lock_predicate_lambdas(G, inst, nid):
    """lambdas passed to condition_variable::wait* are evaluated with the lock held"""


def c01(P, ctx):
    LAMS[0], PROG[0] = P.lam, P
    done = set()
    for rec in sorted(threaded_classes(P)):
        bn = base_name(rec)
        workers = worker_entries(P, rec)
        if not workers:
            continue
        wf = set()
        for w in workers:
            wf |= fields_touched(P, w, rec)
        others = set()
        ents = entry_methods(P, rec, workers)
        for f in ents:
            if f not in workers and f.kind not in ("ctor",):
                others |= fields_touched(P, f, rec)
        fld = {f["name"]: f for f in P.recs[rec]["fields"]}
        shared = {x for x in wf & others if x in fld and not is_atomic(fld[x]["t"]) and not SYNC.search(fld[x]["t"]) and not fld[x].get("const") and not fld[x]["t"].startswith("const ")}
        ctx.stats.setdefault("shared", {})[rec] = sorted(shared)
        mus = [f["name"] for f in P.recs[rec]["fields"] if MUTEXT.match(f["t"])]
        guarded_access(P, ctx, rec, ents, workers, shared, mus)
    for rec in sorted(P.recs):
        if base_name(rec) in FROZEN:
            mus = [f["name"] for f in P.recs[rec]["fields"] if MUTEXT.match(f["t"])]
            names = {f["name"] for f in P.recs[rec]["fields"]}
            tab = FROZEN[base_name(rec)] & names
            if not mus or not tab:
                tab = {f["name"] for f in P.recs[rec]["fields"] if not SYNC.search(f["t"])}
            tab = {t for t in tab if not is_atomic(next(f["t"] for f in P.recs[rec]["fields"] if f["name"] == t))}
            if mus and tab:
                guarded_access(P, ctx, rec, entry_methods(P, rec, []), [], tab, mus, force=True)
    for q, mu in FROZEN_STATIC.items():
        for f in P.all():
            if not any(n and n.get("q") == q for n in f.nodes):
                continue
            G = Graph(P, f, inline=no_lock_inline, maxdepth=1)
            L = Locks(G)
            for nd in G.stmts():
                if nd.n().get("q") == q and nd.inst is G.root:
                    if ("G", mu) in L.held(nd.i):
                        ctx.ok("guarded-access", nd.inst.where(nd.ref), q)
                    else:
                        ctx.bad("guarded-access", nd.inst.where(nd.ref), "%s touched in %s without holding %s" % (q, f.fn, mu))


def guarded_access(P, ctx, rec, ents, workers, shared, mus, force=False):
    flags = active_flags(P, rec)
    for f in ents:
        if f.kind == "ctor":
            continue
        G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
        L = Locks(G)
        Q = Quiet(G, False, flags, enabled=(f not in workers) and not force)
        # lambdas given to wait()/wait_for()/wait_until() run under the lock: handled below through their own graph
        for nd in G.stmts():
            n = nd.n()
            if n["k"] == "MemberExpr" and n.get("dk") == "field" and n.get("rec") == rec and n["n"] in shared:
                where = nd.inst.where(nd.ref)
                held = [m for m in L.held(nd.i) if m[0] == "M" and m[2] in mus]
                if held:
                    ctx.ok("guarded-access", where, "%s.%s under %s in %s" % (rec, n["n"], held[0][2], f.fn))
                elif Q.at(nd.i):
                    ctx.ok("guarded-access", where, "%s.%s with no live worker in %s" % (rec, n["n"], f.fn))
                else:
                    ctx.bad("guarded-access", where, "shared field %s::%s accessed in %s without holding %s while worker threads may run" % (base_name(rec), n["n"], nd.inst.fn.fn, "/".join(mus)),
                            key="guarded-access|%s::%s|%s" % (base_name(rec), n["n"], nd.inst.fn.fn))
            if n["k"] == "LambdaExpr":
                lam = P.lam.get((nd.inst.fn.tu, n["lam"]))
                if lam is None:
                    continue
                if any(l.fn is lam for l in G.insts):
                    continue        # inlined at its call site
                tf = fields_touched(P, lam, rec) & shared
                if not tf:
                    continue
                # consumer of the lambda
                par = nd.inst.fn.parents()
                q, d, cons = par.get(nd.ref), 0, None
                while q is not None and d < 5:
                    m = nd.inst.fn.nodes[q]
                    if m["k"] == "CXXMemberCallExpr":
                        cons = (q, m)
                        break
                    q = par.get(q)
                    d += 1
                where = nd.inst.where(nd.ref)
                if cons and "condition_variable" in (cons[1].get("rec") or "") and last(cons[1].get("fn", "")).startswith("wait"):
                    ctx.ok("guarded-access", where, "wait predicate over %s evaluated with the lock held" % sorted(tf))
                else:
                    ctx.notes.append("lambda at %s touches %s and is not analysed" % (where, sorted(tf)))


# ---------------------------------------------------------------------------------------------------------------- C02
def polarity(fn, nid, pol, out, depth=0):
    """collect (field, direction) that can turn the boolean expression true: '+' grow, '-' shrink, 'T'/'F' boolean set"""
    n = fn.nodes[nid]
    k = n["k"]
    if k in CASTS and n.get("ch"):
        return polarity(fn, n["ch"][0], pol, out, depth)
    if k == "UnaryOperator" and n["op"] == "!":
        return polarity(fn, n["ch"][0], not pol, out, depth)
    if k == "BinaryOperator" and n["op"] in ("&&", "||"):
        polarity(fn, n["ch"][0], pol, out, depth)
        return polarity(fn, n["ch"][1], pol, out, depth)
    if k == "BinaryOperator" and n["op"] in ("<", "<=", ">", ">=", "!=", "=="):
        op = n["op"]
        if op in ("!=", "=="):
            for c in n["ch"]:
                for x in fields_in(fn, c):
                    if not any("c" in fn.nodes[o] and fn.nodes[o]["c"] == 0 for o in n["ch"]) or (op == "==") == pol:
                        out.add((x, "?"))
                    else:
                        out.add((x, "+"))
            return
        up = (op in (">", ">=")) == pol
        numeric(fn, n["ch"][0], up, out)
        numeric(fn, n["ch"][1], not up, out)
        return
    if k == "CXXMemberCallExpr" and last(n.get("fn", "")) == "empty":
        for x in fields_in(fn, n["ch"][0]):
            out.add((x, "-" if pol else "+"))
        return
    if k == "DeclRefExpr" and n.get("dk") in ("local",):
        d = decls_of(fn).get(n["d"])
        if d and d.get("init", -1) >= 0:
            return polarity(fn, d["init"], pol, out, depth)
        return
    cf = bool_callee(fn, n)
    if cf is not None and depth < 4:
        for r in cf.nodes:
            if r and r["k"] == "ReturnStmt" and r.get("ch"):
                polarity(cf, r["ch"][0], pol, out, depth + 1)
        return
    fs = fields_in(fn, nid)
    for x in fs:
        out.add((x, "T" if pol else "F"))


def bool_callee(fn, n):
    """body of a called local lambda or of a called method of the same class"""
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and len(n["ch"]) > 1:
        for i in fn.walk(n["ch"][1]):
            x = fn.nodes[i]
            if x["k"] == "DeclRefExpr" and x.get("dk") == "local":
                d = decls_of(fn).get(x["d"])
                if d and d.get("init", -1) >= 0:
                    for j in fn.walk(d["init"]):
                        if fn.nodes[j]["k"] == "LambdaExpr":
                            return LAMS[0].get((fn.tu, fn.nodes[j]["lam"]))
    if n["k"] == "CXXMemberCallExpr" and n.get("fk") and n.get("rec") == fn.rec and PROG[0] is not None:
        f = PROG[0].get(n["fk"], fn.tu)
        return f if f is not None and f.cfg else None
    return None


def numeric(fn, nid, up, out):
    n = fn.nodes[nid]
    k = n["k"]
    if k in CASTS and n.get("ch"):
        return numeric(fn, n["ch"][0], up, out)
    if k == "BinaryOperator" and n["op"] in ("+", "*"):
        numeric(fn, n["ch"][0], up, out)
        return numeric(fn, n["ch"][1], up, out)
    if k == "BinaryOperator" and n["op"] == "-":
        numeric(fn, n["ch"][0], up, out)
        return numeric(fn, n["ch"][1], not up, out)
    if k == "CXXMemberCallExpr" and last(n.get("fn", "")) == "size":
        for x in fields_in(fn, n["ch"][0]):
            out.add((x, "+" if up else "-"))
        return
    if k == "MemberExpr" and n.get("dk") == "field":
        out.add((n["n"], "+" if up else "-"))
        return
    if k == "CXXMemberCallExpr" and (last(n.get("fn", "")).startswith("operator ") or last(n.get("fn", "")) == "load"):
        for x in fields_in(fn, n["ch"][0]):
            out.add((x, "+" if up else "-"))
        return
    if k == "DeclRefExpr" and n.get("dk") == "local":
        d = decls_of(fn).get(n["d"])
        if d and d.get("init", -1) >= 0 and fn.nodes[d["init"]]["k"] in ("BinaryOperator",):
            return numeric(fn, d["init"], up, out)


def fields_in(fn, nid):
    return {fn.nodes[i]["n"] for i in fn.walk(nid) if fn.nodes[i]["k"] == "MemberExpr" and fn.nodes[i].get("dk") == "field"}


GROW = {"push", "emplace", "push_back", "emplace_back", "insert", "push_front", "emplace_front", "insert_or_assign"}
SHRINK = {"pop", "erase", "pop_front", "pop_back", "clear", "extract"}


def change_dirs(inst, nid, rec):
    """[(field, dirs)] for state changes of rec's fields made by node nid; dirs subset of '+-TF' (every possibility if unknown)"""
    n = inst.fn.nodes[nid]
    k = n["k"]

    def fld(c):
        m = inst.fn.nodes[c]
        while m["k"] in CASTS and m.get("ch"):
            m = inst.fn.nodes[m["ch"][0]]
        if m["k"] == "MemberExpr" and m.get("dk") == "field" and m.get("rec") == rec:
            return m["n"]
        p = path(inst, c)
        if p[0] == "M" and p[1] == ("this",):
            return p[2]
        return None
    op = n.get("op")
    tgt, rhs = None, None
    if k in ("BinaryOperator", "CompoundAssignOperator") and op in ASSIGN:
        tgt, rhs = fld(n["ch"][0]), n["ch"][1]
    elif k == "CXXOperatorCallExpr" and (op in ASSIGN or op in ("++", "--")) and len(n["ch"]) > 1:
        tgt = fld(n["ch"][1])
        rhs = n["ch"][2] if len(n["ch"]) > 2 else None
    elif k == "UnaryOperator" and op in ("++", "--", "post++", "post--"):
        tgt = fld(n["ch"][0])
    elif k == "CXXMemberCallExpr":
        nm = last(n.get("fn", ""))
        m = inst.fn.nodes[n["ch"][0]]
        if m["k"] == "MemberExpr" and m.get("ch"):
            t = fld(m["ch"][0])
            if t:
                if nm in GROW:
                    return [(t, "+")]
                if nm in SHRINK:
                    return [(t, "-")]
                if nm in ("store", "exchange") and len(n["ch"]) > 1:
                    tgt, rhs, op = t, n["ch"][1], "="
                elif nm in ("fetch_add",):
                    return [(t, "+")]
                elif nm in ("fetch_sub",):
                    return [(t, "-")]
    if not tgt:
        return []
    if op in ("++", "post++", "+="):
        return [(tgt, "+")]
    if op in ("--", "post--", "-="):
        return [(tgt, "-")]
    if op == "=" and rhs is not None:
        v = val(inst, rhs)
        rn = inst.fn.nodes[rhs]
        if "c" in rn or v[0] == "c":
            c = rn.get("c", v[1] if v[0] == "c" else None)
            return [(tgt, ("T" if c else "F") + ("-" if not c else "+"))]
        # m = m + a - b : direction unknown unless only additions/subtractions
        if v[0] == "b-" and sub(v, ("M", ("this",), tgt)) and not sub(v[2], ("M", ("this",), tgt)):
            # m = m + a - b replaces a queued element by another: the queue is not empty afterwards, so whoever takes the
            # replacement still announces the room; only m = m - b counts as a shrink of its own
            return [(tgt, "+" if v[1] != ("M", ("this",), tgt) else "-")]
        if v[0] == "b+" and ("M", ("this",), tgt) in v:
            return [(tgt, "+")]
        return [(tgt, "+-TF")]
    return []


def c02(P, ctx):
    LAMS[0], PROG[0] = P.lam, P
    recs = [r for r in P.recs if any("std::condition_variable" in f["t"] for f in P.recs[r]["fields"])]
    for rec in sorted(recs):
        methods = [f for f in P.methods_of(rec)]
        lams = [l for l in P.lam.values()]
        workers = worker_entries(P, rec)
        ents = entry_methods(P, rec, workers)
        graphs = [(f, Graph(P, f, dyn=rec, inline=inl_class(P, rec))) for f in ents]
        # 1. wait sites and their predicates
        preds = {}       # cv field -> {(field,dir)}
        hetero = {}      # cv field -> waiters differ (predicate depends on the caller's own data)
        timed_only = {}
        multi = {}       # cv -> more than one thread may wait at once
        for f, G in graphs:
            L = Locks(G)
            for nd in G.stmts():
                n = nd.n()
                if n["k"] != "CXXMemberCallExpr" or "condition_variable" not in (n.get("rec") or ""):
                    continue
                nm = last(n.get("fn", ""))
                if not nm.startswith("wait"):
                    continue
                m = nd.inst.fn.nodes[n["ch"][0]]
                cvp = path(nd.inst, m["ch"][0])
                cv = cvp[2] if cvp[0] == "M" else repr(cvp)
                where = nd.inst.where(nd.ref)
                nargs = len(n["ch"]) - 1
                haspred = nargs >= (2 if nm.startswith("wait") and "<" not in nm and nm == "wait" else 3) or (nm != "wait" and nargs >= 3)
                timed = not (nm == "wait" or nm.startswith("wait<"))
                if nm.startswith("wait<"):
                    haspred = nargs >= 2
                elif timed:
                    haspred = nargs >= 3
                else:
                    haspred = nargs >= 2
                # lock passed to wait must be the class mutex, held here
                if not any(x[0] == "M" for x in L.held(nd.i)):
                    ctx.bad("wait-under-lock", where, "wait on %s::%s in %s without holding the mutex" % (base_name(rec), cv, f.fn))
                else:
                    ctx.ok("wait-under-lock", where, cv)
                if haspred:
                    lam = G._lambda_of(nd.inst, n["ch"][-1])
                    if lam is None:
                        ctx.notes.append("predicate of %s not resolved" % where)
                        continue
                    lf = lam[0]
                    s = preds.setdefault(cv, set())
                    for r in lf.nodes:
                        if r and r["k"] == "ReturnStmt" and r.get("ch"):
                            pset = set()
                            polarity(lf, r["ch"][0], True, pset)
                            if not timed:
                                s |= pset
                    used = fields_touched(P, lf, rec)
                    if not used:
                        ctx.bad("wait-predicate", where, "wait predicate on %s::%s tests no shared state" % (base_name(rec), cv))
                    else:
                        ctx.ok("wait-predicate", where, "%s tests %s" % (cv, sorted(used)))
                    loc = any(x and x["k"] == "DeclRefExpr" and x.get("dk") in ("local", "parm") and x["d"] not in decls_of(lf) for x in lf.nodes)
                    if loc and not timed:
                        hetero[cv] = where
                else:
                    # un-predicated wait: must sit in a loop that re-tests shared state after waking
                    ok, atomsf = in_retest_loop(G, nd, rec)
                    if ok:
                        ctx.ok("wait-predicate", where, "%s re-tested in the enclosing loop" % cv)
                        if not timed:
                            s = preds.setdefault(cv, set())
                            s |= atomsf
                            if loop_local(nd):
                                hetero[cv] = where
                    else:
                        ctx.bad("wait-predicate", where, "wait on %s::%s in %s can return (spuriously) without its condition being re-tested" % (base_name(rec), cv, f.fn))
        # 2. every change that can make a predicate true is followed by a notification before the function ends
        for f, G in graphs:
            if f.kind == "ctor":
                continue
            L = Locks(G)
            flags = active_flags(P, rec)
            Q = Quiet(G, False, flags, enabled=f not in workers)
            for nd in G.stmts():
                for fld, dirs in change_dirs(nd.inst, nd.ref, rec):
                    for cv, ps in sorted(preds.items()):
                        hit = [d for (x, d) in ps if x == fld and (d in dirs or d == "?")]
                        if not hit:
                            continue
                        where = nd.inst.where(nd.ref)
                        if Q.at(nd.i):
                            ctx.ok("notify-after-change", where, "%s changed while no worker is alive" % fld)
                            continue
                        boolset = any(d in "TF" for d in hit)
                        needall = boolset or cv in hetero
                        # lost wake-up: the change must be made with the waiters' mutex held
                        if not any(x[0] == "M" for x in L.held(nd.i)):
                            ctx.bad("change-under-lock", where, "%s::%s, which blocked threads test, is changed in %s without the mutex: a waiter between its test and its sleep misses it" % (base_name(rec), fld, f.fn))
                        else:
                            ctx.ok("change-under-lock", where, fld)
                        miss = unnotified(G, nd, cv, needall)
                        if miss is None:
                            ctx.ok("notify-after-change", where, "%s -> %s notified%s" % (fld, cv, " (all)" if needall else ""))
                        else:
                            ctx.bad("notify-after-change", where, "%s::%s changed in %s, but a path to %s never notifies %s%s: a thread blocked on it may sleep forever" % (base_name(rec), fld, f.fn, miss, cv, " with notify_all" if needall else ""),
                                    key="notify-after-change|%s::%s|%s|%s" % (base_name(rec), fld, f.fn, cv))


def in_retest_loop(G, nd, rec):
    """the wait node lies on a CFG cycle with a branch on rec's state after it"""
    fn = nd.inst.fn
    par = fn.parents()
    i = nd.ref
    while i is not None:
        n = fn.nodes[i]
        if n["k"] in ("WhileStmt", "DoStmt", "ForStmt"):
            break
        i = par.get(i)
    # locate the enclosing loop by AST containment
    for j, n in enumerate(fn.nodes):
        if n and n["k"] in ("WhileStmt", "DoStmt", "ForStmt") and nd.ref in set(fn.walk(j)):
            c = n["parts"].get("cond", -1)
            fs = set()
            if c is not None and c >= 0:
                polarity(fn, c, False, fs)
            inner = {x["n"] for k in fn.walk(j) for x in [fn.nodes[k]] if x["k"] == "IfStmt" for y in fn.walk(x["parts"]["cond"]) for x in [fn.nodes[y]] if x["k"] == "MemberExpr" and x.get("dk") == "field"}
            if fs or inner:
                return True, {(a, b) for a, b in fs}
    return False, set()


def loop_local(nd):
    """does the condition of the loop around the wait depend on values of this caller (so that waiters differ)"""
    fn = nd.inst.fn
    for j, n in enumerate(fn.nodes):
        if n and n["k"] in ("WhileStmt", "DoStmt", "ForStmt") and nd.ref in set(fn.walk(j)):
            c = n["parts"].get("cond", -1)
            if c is None or c < 0:
                continue
            for i in fn.walk(c):
                cf = bool_callee(fn, fn.nodes[i])
                if cf is not None and cf.kind == "lambda" and any(x and x["k"] == "DeclRefExpr" and x.get("dk") in ("local", "parm") and x["d"] not in decls_of(cf) for x in cf.nodes):
                    return True
                x = fn.nodes[i]
                if x["k"] == "DeclRefExpr" and x.get("dk") == "parm":
                    return True
    return False


def unnotified(G, nd, cv, needall):
    """a path from nd to the end of the entry function (or to the next wait / loop back edge) without notifying cv; None if all notify"""
    names = {"notify_all"} if needall else {"notify_all", "notify_one"}
    seen = set()
    st = [(s, frozenset()) for s, c in nd.succ if not (c and c[0] == "exc")]
    while st:
        u, known = st.pop()
        if (u, known) in seen:
            continue
        seen.add((u, known))
        x = G.nodes[u]
        if x.kind == "stmt":
            n = x.n()
            if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in names and "condition_variable" in (n.get("rec") or ""):
                m = x.inst.fn.nodes[n["ch"][0]]
                p = path(x.inst, m["ch"][0])
                if p[0] == "M" and p[2] == cv:
                    continue
            if n["k"] == "CXXMemberCallExpr" and "condition_variable" in (n.get("rec") or "") and last(n.get("fn", "")).startswith("wait"):
                return "the next wait at " + x.inst.fn.where(x.ref)
            if is_join(x):
                return "the join at " + x.inst.fn.where(x.ref)
            if n["k"] == "CXXThrowExpr":
                continue
            if n["k"] == "BinaryOperator" and n.get("op") == "=" and x.inst.fn.nodes[n["ch"][0]]["k"] == "DeclRefExpr":
                p = path(x.inst, n["ch"][0])            # flags set to a constant on the way
                k = x.inst.fn.nodes[n["ch"][1]].get("c")
                known = frozenset(y for y in known if y[0] != p) | (frozenset([(p, bool(k))]) if k in (0, 1) and "bool" in (x.inst.fn.nodes[n["ch"][0]].get("t") or "bool") else frozenset())
        if u == G.exit.i:
            return "the end of " + G.root.fn.fn
        for s, c in x.succ:
            if c and c[0] == "exc":
                continue
            if known and c and c[0] == "if" and any(a[0] in ("true", "false") and (a[1], a[0] == "false") in known for a in edge_atoms(c)):
                continue
            st.append((s, known))
    return None


# ---------------------------------------------------------------------------------------------------------------- helpers
def is_fcall(n):
    """call through a std::function / std::packaged_task (work supplied by the user)"""
    return n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and re.match(r"std::(function|packaged_task)<", n.get("rec") or "")


def containers(P, rec):
    r = P.recs[rec]
    return {f["name"] for f in r["fields"] if re.match(r"(const )?std::(queue|map|deque|list|vector|stack|priority_queue|multimap|unordered_map)<", f["t"]) and "std::thread" not in f["t"] and "exception_ptr" not in f["t"]}


def field_of(inst, nid):
    """name of the this-field a node (through casts, calls of begin()/front()/find(), references) refers to"""
    p = path(inst, nid)
    while p[0] in ("*", "&", "idx", "call", "u*"):
        p = p[1] if p[0] != "call" else (p[2] if len(p) > 2 else ("?",))
    if p[0] == "M" and p[1] == ("this",):
        return p[2]
    return None


def cond_nodes(G):
    return {nd.i for nd in G.nodes}


def shrink_of(nd, conts):
    """container field from which this statement removes an element"""
    n = nd.n()
    if n["k"] != "CXXMemberCallExpr" or last(n.get("fn", "")) not in ("pop", "erase", "pop_front", "pop_back", "extract"):
        return None
    m = nd.inst.fn.nodes[n["ch"][0]]
    if m["k"] != "MemberExpr" or not m.get("ch"):
        return None
    p = path(nd.inst, m["ch"][0])
    if p[0] == "M" and p[1] == ("this",) and p[2] in conts:
        return p[2]
    return None


def is_block(nd):
    n = nd.n()
    return n["k"] == "CXXMemberCallExpr" and "condition_variable" in (n.get("rec") or "") and last(n.get("fn", "")).startswith("wait")


def reach_without(G, start, stop, targets):
    """first node of `targets` reachable from start's successors without passing a node of `stop` (exceptional edges excluded)"""
    seen, st = set(), [s for s, c in start.succ if not (c and c[0] == "exc")]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u in targets:
            return G.nodes[u]
        if u in stop:
            continue
        st.extend(s for s, c in G.nodes[u].succ if not (c and c[0] == "exc"))
    return None


def derives_from(inst, nid, conts, d=0):
    """does the expression read an element of one of the container fields in place (iterator, reference), not a copy"""
    fn = inst.fn
    if d > 10:
        return None
    for i in fn.walk(nid):
        n = fn.nodes[i]
        if n["k"] == "MemberExpr" and n.get("dk") == "field" and n["n"] in conts and path(inst, i)[:2] == ("M", ("this",)):
            return n["n"]
        if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
            owner, info = inst.find_decl(n["d"])
            if owner is None:
                continue
            if n["d"] in owner.bind and owner.bind[n["d"]] and owner.bind[n["d"]][2]:
                r = derives_from(owner.bind[n["d"]][0], owner.bind[n["d"]][1], conts, d + 1)
                if r:
                    return r
            if info is not None and info.get("init", -1) >= 0:
                t = info.get("t", "")
                if info.get("ref") or "iterator" in t or "Iterator" in t or t.endswith("*"):
                    r = derives_from(owner, info["init"], conts, d + 1)
                    if r:
                        return r
    return None


# ---------------------------------------------------------------------------------------------------------------- C03
def c03(P, ctx):
    LAMS[0], PROG[0] = P.lam, P
    for rec in sorted(threaded_classes(P)):
        conts = containers(P, rec)
        if not conts:
            continue
        bn = base_name(rec)
        counters = {f["name"] for f in P.recs[rec]["fields"] if re.search(r"atomic<(unsigned long|size_t|int|unsigned int|long)>|^(unsigned long|size_t|int|unsigned int)$", f["t"])}
        mus = [f["name"] for f in P.recs[rec]["fields"] if MUTEXT.match(f["t"])]
        for w in worker_entries(P, rec):
            G = Graph(P, w, dyn=rec, inline=inl_class(P, rec))
            L = Locks(G)
            S = list(G.stmts())
            works = [nd for nd in S if is_fcall(nd.n())]
            rem = [nd for nd in S if shrink_of(nd, conts)]
            used = {shrink_of(nd, conts) for nd in rem}
            if not works:
                continue
            blocks = {nd.i for nd in S if is_block(nd)}
            acq = {nd.i for nd, m, h in L.acquires}
            remi = {nd.i for nd in rem}
            worki = {nd.i for nd in works}
            if not rem:
                ctx.bad("handed-once", w.where(), "%s runs queued work but never removes it from the queue" % w.fn)
                continue
            # (a) no other worker can see the element: between the (re)acquisition of the lock and the call, it is removed
            for nd in works:
                where = nd.inst.where(nd.ref)
                held = [m for m in L.held(nd.i) if m[0] == "M" and m[2] in mus]
                if held:
                    ctx.bad("work-unlocked", where, "queued work runs with %s::%s held in %s: no other worker or producer can make progress meanwhile" % (bn, held[0][2], w.fn))
                else:
                    ctx.ok("work-unlocked", where, w.fn)
                # backwards: every path from a lock acquisition / wait to this call passes a removal
                if back_without(G, nd, remi, acq | blocks | {G.entry.i}):
                    ctx.bad("handed-once", where, "%s releases the lock and runs a queued element that is still in %s: another worker can take the same element" % (w.fn, "/".join(sorted(conts & (used or conts)))),
                            key="handed-once|%s|%s" % (bn, w.fn))
                else:
                    ctx.ok("handed-once", where, "element removed before the lock is released")
                src = None
                for a in nd.n()["ch"][1:]:
                    src = src or derives_from(nd.inst, a, conts)
                if src:
                    ctx.bad("handed-once", where, "%s runs work on an element still stored in (or referring into) %s::%s, which other threads change" % (w.fn, bn, src),
                            key="handed-ref|%s|%s" % (bn, w.fn))
                else:
                    ctx.ok("handed-once", where, "work runs on a private copy")
            # (b) nothing removed is lost: after a removal, the work runs before the next wait, removal or exit
            for nd in rem:
                where = nd.inst.where(nd.ref)
                t = reach_without(G, nd, worki, blocks | remi | {G.exit.i})
                if t is not None:
                    # removal after the work (old order) is judged by (a)
                    if back_without(G, nd, worki, acq | blocks | {G.entry.i}) :
                        ctx.bad("never-lost", where, "%s removes an element from %s and can reach %s without running it: a queued item is lost" % (w.fn, shrink_of(nd, conts), t.inst.where(t.ref if t.kind == "stmt" else None)),
                                key="never-lost|%s|%s" % (bn, w.fn))
                        continue
                ctx.ok("never-lost", where, "every removed element is run")
            # (c) the work is run once per removal
            for nd in works:
                t = reach_without(G, nd, remi | blocks, worki)
                where = nd.inst.where(nd.ref)
                if t is not None:
                    ctx.bad("run-once", where, "%s can run work again (at %s) without taking a new element" % (w.fn, t.inst.where(t.ref)), key="run-once|%s|%s" % (bn, w.fn))
                else:
                    ctx.ok("run-once", where, w.fn)
            # (d) drained before leaving: the worker returns only when nothing is queued
            F = MustFacts(G)
            facts = F.at(G.exit.i)
            if any(drained(a, conts, counters) for a in facts):
                ctx.ok("drained", w.where(), "%s leaves only with an empty queue" % w.fn)
            else:
                ctx.bad("drained", w.where(), "%s can return while work is still queued (its exit does not imply an empty queue)" % w.fn, key="drained|%s|%s" % (bn, w.fn))
            own_element(P, ctx, w, G, works, conts, bn)
        sizes(P, ctx, rec, conts, counters)
        given_up(P, ctx, rec, conts, counters)
        # (e) a counter that mirrors the queue changes together with it
        mirror = mirrored(P, rec, conts, counters)
        ctx.stats.setdefault("mirror", {})[rec] = sorted(mirror)
        for f in entry_methods(P, rec, worker_entries(P, rec)):
            if f.kind == "ctor":
                continue
            G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
            S = list(G.stmts())
            blocks = {nd.i for nd in S if is_block(nd)} | {G.exit.i}
            rem = [nd for nd in S if shrink_of(nd, conts)]
            for m in mirror:
                dec = {nd.i for nd in S if any(x == m and d == "-" for x, d in change_dirs(nd.inst, nd.ref, rec)) or sets_to_size(nd, m, conts)}
                for nd in rem:
                    where = nd.inst.where(nd.ref)
                    miss = reach_without(G, nd, dec, blocks)
                    pre = back_without(G, nd, dec, blocks | {G.entry.i})
                    if miss is not None and pre:
                        ctx.bad("mirror", where, "%s removes from %s without lowering %s::%s: workers never see the queue as empty" % (f.fn, shrink_of(nd, conts), bn, m), key="mirror|%s|%s|-" % (m, f.fn))
                    else:
                        ctx.ok("mirror", where, m)
                inc = [nd for nd in S if any(x == m and d == "+" for x, d in change_dirs(nd.inst, nd.ref, rec))]
                grow = {nd.i for nd in S if grows(nd, conts)}
                for nd in inc:
                    where = nd.inst.where(nd.ref)
                    rep = [x for x in S if x.i in grow and x.n()["k"] == "CXXOperatorCallExpr" or x.i in grow and last(x.n().get("fn", "")) == "insert_or_assign"]
                    if rep and unit_step(nd) and all(always_with(G, x, nd) for x in rep):
                        ctx.bad("mirror", where, "%s raises %s::%s even when the packet replaces one that is already queued: the counter exceeds the number of queued elements" % (f.fn, bn, m), key="mirror|%s|%s|rep" % (m, f.fn))
                    elif not grow:
                        ctx.bad("mirror", where, "%s raises %s::%s without queueing anything" % (f.fn, bn, m), key="mirror|%s|%s|+" % (m, f.fn))
                    else:
                        ctx.ok("mirror", where, m)
                for g in [nd for nd in S if nd.i in grow]:
                    where = g.inst.where(g.ref)
                    inci = {nd.i for nd in inc}
                    # some path after the insertion raises the counter (it may legitimately not when it replaces)
                    cnt = [x for x in S if sets_to_size(x, m, conts)]
                    if cnt and all(reach_without(G, g, {x.i for x in cnt}, blocks) is None for _ in (0,)):
                        ctx.ok("mirror", where, m)
                    elif reach_any(G, g, inci) or any(reach_any(G, x, {g.i}) for x in inc):
                        ctx.ok("mirror", where, m)
                    else:
                        ctx.bad("mirror", where, "%s queues an element but no path raises %s::%s: the element is never picked up" % (f.fn, bn, m), key="mirror|%s|%s|grow" % (m, f.fn))


def sets_to_size(nd, m, conts):
    """counter = queue.size()"""
    n = nd.n()
    if n.get("op") != "=" or n["k"] not in ("BinaryOperator", "CXXOperatorCallExpr"):
        return False
    l, r = (n["ch"][0], n["ch"][1]) if n["k"] == "BinaryOperator" else (n["ch"][1], n["ch"][2])
    p, v = path(nd.inst, l), val(nd.inst, r)
    return p[0] == "M" and p[1] == ("this",) and p[2] == m and v[0] == "call" and last(v[1]) == "size" and len(v) > 2 and v[2][0] == "M" and v[2][2] in conts


def unit_step(nd):
    n = nd.n()
    if n.get("op") in ("++", "post++"):
        return True
    ch = n.get("ch") or []
    return n.get("op") == "+=" and bool(ch) and nd.inst.fn.nodes[ch[-1]].get("c") == 1


def always_with(G, a, b):
    """does b run on every path through a (before or after it, exceptional edges excluded)"""
    return reach_without(G, a, {b.i}, {G.exit.i}) is None or not back_without(G, a, {b.i}, {G.entry.i})


def reach_work(G, start, stop, targets, worki):
    """like reach_without, following also the failures of the queued work itself"""
    seen, st = set(), [s for s, c in start.succ if not (c and c[0] == "exc")]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u in targets:
            return G.nodes[u]
        if u in stop:
            continue
        st.extend(s for s, c in G.nodes[u].succ if not (c and c[0] == "exc") or u in worki)
    return None


def given_up(P, ctx, rec, conts, counters):
    """(g) a size that admits packets is given back for every removed element, once, also when its callback fails"""
    bn = base_name(rec)
    sized = set()
    for f in P.methods_of(rec):
        for n in f.nodes:
            if n and n["k"] == "BinaryOperator" and n["op"] in ("<=", "<", ">=", ">"):
                a, b = fields_in(f, n["ch"][0]) & counters, fields_in(f, n["ch"][1]) & counters
                if len(a) == 1 and len(b) == 1 and a != b:
                    sized |= a | b
    for w in worker_entries(P, rec):
        G = Graph(P, w, dyn=rec, inline=inl_class(P, rec))
        S = list(G.stmts())
        blocks = {nd.i for nd in S if is_block(nd)} | {G.exit.i}
        rem = [nd for nd in S if shrink_of(nd, conts)]
        worki = {nd.i for nd in S if is_fcall(nd.n())}
        for m in sorted(sized):
            dec = {nd.i for nd in S if any(x == m and d == "-" for x, d in change_dirs(nd.inst, nd.ref, rec))}
            if not dec:
                continue
            for nd in rem:
                where = nd.inst.where(nd.ref)
                if back_without(G, nd, dec, blocks | {G.entry.i}) and reach_work(G, nd, dec, blocks, worki) is not None:
                    ctx.bad("size", where, "%s removes an element and can go on without lowering %s::%s (also when the callback fails): the room it took is never given back" % (w.fn, bn, m), key="size|%s|%s|-" % (m, w.fn))
                else:
                    ctx.ok("size", where, "%s given back" % m)
            for d in dec:
                t = reach_work(G, G.nodes[d], {x.i for x in rem} | blocks, dec, worki)
                if t is not None:
                    ctx.bad("size", t.inst.where(t.ref), "%s lowers %s::%s twice for one element" % (w.fn, bn, m), key="size|%s|%s|2" % (m, w.fn))


def own_element(P, ctx, w, G, works, conts, bn):
    """(h) the callback of a keyed queue gets the stored packet and the key it was queued under"""
    maps = {f["name"] for r in P.recs for f in P.recs[r]["fields"] if base_name(r) == bn and "map<" in f["t"]}
    if not (maps & conts):
        return
    for nd in works:
        args = nd.n()["ch"][1:]
        if nd.n()["k"] == "CXXOperatorCallExpr":
            args = nd.n()["ch"][2:]
        got = [part_of(nd.inst, a) for a in args]
        where = nd.inst.where(nd.ref)
        if len(got) < 2 or None in got:
            continue
        if "computed" in got or got[0] == got[1]:
            ctx.bad("own-key", where, "%s passes its callback %s instead of the queued packet and the index it was queued with" % (w.fn, " and ".join(x if x == "computed" else "the element's '%s'" % x for x in got)), key="own-key|%s" % w.fn)
        else:
            ctx.ok("own-key", where, "packet and key of one element")


def part_of(inst, nid, d=0):
    """'first' or 'second' of a queued element, 'computed' for arithmetic, None if unknown"""
    fn = inst.fn
    n = fn.nodes[nid]
    if d > 12:
        return None
    if n["k"] == "MemberExpr" and n.get("n") in ("first", "second"):
        return n["n"]
    if n["k"] in ("BinaryOperator", "ConditionalOperator") and n.get("op", "+") in ("+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>"):
        return "computed"
    if n["k"] == "UnaryOperator" and n.get("op") in ("++", "--", "-", "~", "post++", "post--"):
        return "computed"
    if n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        owner, info = inst.find_decl(n["d"])
        if owner is None:
            return None
        b = owner.bind.get(n["d"])
        if b:
            return part_of(b[0], b[1], d + 1)
        if info is not None and info.get("init", -1) >= 0:
            return part_of(owner, info["init"], d + 1)
        return None
    if n["k"] == "CallExpr" and last(n.get("fn", "")).split("<")[0] in ("move", "forward", "as_const", "ref", "cref"):
        return part_of(inst, n["ch"][1], d + 1)
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("key", "mapped", "clone"):
        return {"key": "first", "mapped": "second"}.get(last(n["fn"])) or part_of(inst, fn.nodes[n["ch"][0]]["ch"][0], d + 1)
    if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and len(n.get("ch") or []) == 1:
        return part_of(inst, n["ch"][0], d + 1)
    return None


def sizes(P, ctx, rec, conts, counters):
    """(f) a size that admits packets takes exactly the value that was admitted, and gives back what was removed"""
    bn = base_name(rec)
    for f in entry_methods(P, rec, worker_entries(P, rec)):
        if f.kind == "ctor":
            continue
        G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
        grow = [nd for nd in G.stmts() if grows(nd, conts)]
        if not grow:
            continue
        ws = [w for w in MT.writes(G, counters) if w[1] == ("this",) and w[3] in ("=", "+=", "-=", "?operator=", "?operator+=", "?fetch_add", "?operator-=")]
        if not ws:
            continue
        MF = MustFacts(G)
        for w in ws:
            nd, base, fld, op, rhs = w
            bounds = []
            for u in G.stmts():     # admission tests `E <= limit` over this counter that hold at the write
                n = u.n()
                if n["k"] == "BinaryOperator" and n["op"] in ("<=", "<", ">=", ">") and u.inst is nd.inst:
                    a, b = n["ch"]
                    for e, lim, o in ((a, b, n["op"]), (b, a, SWP[n["op"]])):
                        if o in ("<=", "<") and fld in fields_in(u.inst.fn, e) and fld not in fields_in(u.inst.fn, lim):
                            at = cmp_atom(o, val(u.inst, e), val(u.inst, lim))
                            if at in MF.at(nd.i) or at in MF.at(grow[0].i):
                                bounds.append(e)
            if not bounds:
                continue
            where = nd.inst.where(nd.ref)
            n = nd.n()
            if n["k"] == "CXXOperatorCallExpr":
                op, rhs = n["op"], n["ch"][2]
            elif op == "?fetch_add":
                op, rhs = "+=", n["ch"][1]
            old = Rat.leaf(("M", ("this",), fld))
            r = rat(nd.inst, rhs)
            new = {"=": r, "+=": old + r if r else None, "-=": old - r if r else None}.get(op)
            if new is None:
                continue
            want = [rat(nd.inst, e) for e in bounds]
            if any(x is not None and x == new for x in want):
                ctx.ok("size", where, "%s takes the admitted value" % fld)
                continue
            # a write made only on one side of the 'already queued' test is compared under that test
            facts = MF.at(nd.i)
            hit = False
            for e in bounds:
                for pre, r2 in ternary_cases(nd.inst, e):
                    if all(any(a in facts for a in atoms(i, c, pol)) for i, c, pol in pre) and pre and r2 == new:
                        hit = True
            if hit:
                ctx.ok("size", where, "%s takes the admitted value (case)" % fld)
            elif all(x is not None for x in want) and not any(l[0] == "?" for x in want + [new] for l in x.leaves()):
                ctx.bad("size", where, "%s admits a packet for the value %s but sets %s::%s to %s: the queue size no longer follows its content" % (f.fn, want[0], bn, fld, new), key="size|%s|%s" % (fld, f.fn))
            else:
                ctx.notes.append("%s: size accounting not resolved" % where)


def ternary_cases(inst, nid):
    """[(conditions, value)] of an expression whose operands are ?: selected locals"""
    fn = inst.fn
    conds = []
    for i in fn.walk(nid):
        n = fn.nodes[i]
        if n["k"] == "DeclRefExpr" and n.get("dk") == "local":
            o, info = inst.find_decl(n["d"])
            if o is inst and info and info.get("init", -1) >= 0:
                j = info["init"]
                while fn.nodes[j]["k"] in CASTS and fn.nodes[j].get("ch"):
                    j = fn.nodes[j]["ch"][0]
                if fn.nodes[j]["k"] == "ConditionalOperator":
                    conds.append((n["d"], j))
    out = []
    if len(conds) != 1:
        return out
    d, j = conds[0]
    r = rat(inst, nid)
    c, a, b = fn.nodes[j]["ch"][:3]
    for pol, arm in ((True, a), (False, b)):
        ra = rat(inst, arm)
        if r is None or ra is None:
            continue
        v = r.subst_rat(lambda l: ra if is_cond_leaf(inst, l, j, d) else None)
        out.append((((inst, c, pol),), v))
    return out


def is_cond_leaf(inst, l, j, d):
    return l == val(inst, j) or (l[0] == "L" and l[2] == d)


def reach_any(G, start, targets):
    seen, st = set(), [s for s, c in start.succ]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u in targets:
            return True
        st.extend(s for s, c in G.nodes[u].succ)
    return False


def grows(nd, conts):
    n = nd.n()
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in GROW:
        m = nd.inst.fn.nodes[n["ch"][0]]
        if m.get("ch"):
            p = path(nd.inst, m["ch"][0])
            return p[0] == "M" and p[1] == ("this",) and p[2] in conts
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) > 1:
        p = path(nd.inst, n["ch"][1])
        if p[0] == "idx":
            p = p[1]
            return p[0] == "M" and p[1] == ("this",) and p[2] in conts
    return False


def back_without(G, nd, stop, targets):
    """is there a backward path from nd to a target without passing a node of `stop`"""
    seen, st = set(), [p for p, c in nd.pred if not (c and c[0] == "exc")]
    while st:
        u = st.pop()
        if u in seen or u in stop:
            continue
        seen.add(u)
        if u in targets:
            return True
        st.extend(p for p, c in G.nodes[u].pred if not (c and c[0] == "exc"))
    return False


def drained(a, conts, counters):
    def fld(p):
        return p[2] if isinstance(p, tuple) and len(p) > 2 and p[0] == "M" and p[1] == ("this",) else None
    if a[0] == "true" and a[1][0] == "call" and last(a[1][1]) == "empty" and len(a[1]) > 2:
        return fld(a[1][2]) in conts
    if a[0] in ("==", "<=") and len(a) == 3:
        x, y = a[1], a[2]
        for u, v in ((x, y), (y, x)):
            if v == ("c", 0):
                if fld(u) in counters:
                    return a[0] == "==" or u == x
                if u[0] == "call" and last(u[1]) == "size" and len(u) > 2 and fld(u[2]) in conts:
                    return True
    if a[0] == "<" and a[2] == ("c", 1):
        return fld(a[1]) in counters or (a[1][0] == "call" and last(a[1][1]) == "size" and fld(a[1][2]) in conts)
    if a[0] == "false":
        return fld(a[1]) in counters
    return False


def mirrored(P, rec, conts, counters):
    """counters that the wait predicates / loop conditions of workers test instead of the container"""
    out = set()
    for w in worker_entries(P, rec):
        for f in [w] + [l for l in P.lam.values() if l.tu == w.tu and l.line >= w.line and l.line <= w.endline and l.file == w.file]:
            for i, n in enumerate(f.nodes):
                if n and n["k"] == "BinaryOperator" and n["op"] in (">", "!=", "<", "=="):
                    for a, b in (n["ch"], n["ch"][::-1]):
                        if f.nodes[b].get("c") == 0:
                            fs = fields_in(f, a) & counters
                            out |= fs
    # keep those that are ever raised by one
    keep = set()
    for f in P.methods_of(rec):
        for n in f.nodes:
            if n and ((n["k"] == "UnaryOperator" and n.get("op") in ("++", "post++", "--", "post--")) or (n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--")) or (n["k"] in ("CompoundAssignOperator", "CXXOperatorCallExpr") and n.get("op") in ("+=", "-="))):
                c = n["ch"][-1] if n["k"] == "UnaryOperator" else (n["ch"][1] if n["k"] == "CXXOperatorCallExpr" else n["ch"][0])
                keep |= fields_in(f, c)
            if n and n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("fetch_add", "fetch_sub"):
                keep |= fields_in(f, n["ch"][0])
    return out & keep


# ---------------------------------------------------------------------------------------------------------------- C04
def thread_fields(P, rec):
    return {f["name"]: f["t"] for f in P.recs[rec]["fields"] if "std::thread" in f["t"]}


def enclosing_trys(fn, nid):
    out = []
    for i, n in enumerate(fn.nodes):
        if n and n["k"] == "CXXTryStmt" and n.get("ch") and nid in set(fn.walk(n["ch"][0])):
            out.append(i)
    return out


def catch_all(fn, t):
    """handler node of a catch(...) of try statement t"""
    for c in fn.nodes[t]["ch"][1:]:
        n = fn.nodes[c]
        if n["k"] == "CXXCatchStmt" and n.get("ct") == "...":
            return c
    return None


def protected(inst, nid, stop=None):
    """(fn, handler) of the innermost catch(...) around the node, looking out through the inlined call chain"""
    while inst is not None:
        for t in reversed(enclosing_trys(inst.fn, nid) if nid is not None else []):
            h = catch_all(inst.fn, t)
            if h is not None:
                return inst, h
        nid = inst.callnid
        inst = inst.caller
    return None


def rethrows(fn, h):
    for i in fn.walk(h):
        n = fn.nodes[i]
        if n["k"] == "CXXThrowExpr":
            return True
        if n["k"] in CALLS and last(n.get("fn", "")) in ("rethrow_exception", "terminate", "abort"):
            return True
    return False


def c04(P, ctx):
    LAMS[0], PROG[0] = P.lam, P
    recs = [r for r in P.recs if thread_fields(P, r)]
    for rec in sorted(recs):
        bn = base_name(rec)
        tf = thread_fields(P, rec)
        workers = worker_entries(P, rec)
        flags = active_flags(P, rec) if P.recs[rec]["fields"] else set()
        ents = entry_methods(P, rec, workers)
        dtors = [f for f in ents if f.kind == "dtor"]
        for d in dtors or [None]:
            if d is None:
                ctx.bad("joined", rec, "%s owns threads but has no destructor that joins them" % bn)
                continue
            G = Graph(P, d, dyn=rec, inline=inl_class(P, rec))
            for fld in sorted(tf):
                joins = [nd for nd in G.stmts() if is_join(nd) and join_field(nd) in (fld, None)]
                if not joins:
                    ctx.bad("joined", d.where(), "%s destroys %s without joining it" % (d.fn, fld), key="joined|%s|%s" % (bn, fld))
                    continue
                # every path to the end without join knows that no worker runs
                esc = unjoined_path(G, {j.i for j in joins}, flags, fld)
                if esc:
                    ctx.bad("joined", d.where(), "%s can finish without joining %s while a worker runs" % (d.fn, fld), key="joined|%s|%s" % (bn, fld))
                else:
                    ctx.ok("joined", d.where(), "%s joined by %s" % (fld, d.fn))
                every_handle(ctx, G, d, joins, tf[fld], fld, bn)
            # nothing escapes the destructor
            for nd in G.stmts():
                n = nd.n()
                thr = n["k"] == "CXXThrowExpr" or (n["k"] in CALLS and last(n.get("fn", "")) == "rethrow_exception")
                if not thr:
                    continue
                where = nd.inst.where(nd.ref)
                p = protected(nd.inst, nd.ref)
                if p is None or rethrows(p[0].fn, p[1]):
                    ctx.bad("dtor-nothrow", where, "an exception raised here escapes %s and terminates the process" % d.fn, key="dtor-nothrow|%s|%s" % (bn, nd.inst.fn.fn))
                else:
                    ctx.ok("dtor-nothrow", where, "contained in %s" % d.fn)
        # (b) no thread handle is overwritten while it may still run
        for f in ents:
            if f in workers:
                continue
            G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
            Q = Quiet(G, f.kind == "ctor", flags)
            for nd in G.stmts():
                n = nd.n()
                tgt = None
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and (n.get("rec") or "") == "std::thread":
                    p = path(nd.inst, n["ch"][1])
                    tgt = p[2] if p[0] == "M" and p[1] == ("this",) else None
                elif n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("clear", "resize", "erase", "pop_back", "assign") and "std::thread" in (n.get("rec") or ""):
                    p = path(nd.inst, nd.inst.fn.nodes[n["ch"][0]]["ch"][0])
                    tgt = p[2] if p[0] == "M" and p[1] == ("this",) else None
                if tgt in tf:
                    must = joined_before(G, nd, flags)
                    if must:
                        ctx.ok("respawn-joined", nd.inst.where(nd.ref), "%s only replaced after its worker ended" % tgt)
                    else:
                        ctx.bad("respawn-joined", nd.inst.where(nd.ref), "%s replaces %s while its worker may still run (the process terminates)" % (f.fn, tgt), key="respawn-joined|%s|%s" % (f.fn, tgt))
        rejoined(P, ctx, rec, ents, workers, tf, bn)
        rethrown_once(P, ctx, rec, ents, workers, bn)
        # (c) failures of user work inside the workers are captured, kept, and given back
        for w in workers:
            G = Graph(P, w, dyn=rec, inline=inl_class(P, rec))
            for nd in G.stmts():
                n = nd.n()
                if not is_fcall(n):
                    continue
                where = nd.inst.where(nd.ref)
                if any(packaged(P, r, nd) for r in P.recs if base_name(r) == bn):
                    ctx.ok("captured", where, "queued elements are packaged tasks: failures travel through the future")
                    continue
                p = protected(nd.inst, nd.ref)
                if p is None:
                    ctx.bad("captured", where, "an exception thrown by the callback escapes worker %s and terminates the process" % w.fn, key="captured|%s" % w.fn)
                    continue
                st = stored_exception(p[0], p[1])
                if not st:
                    ctx.bad("captured", where, "worker %s swallows a callback failure without keeping it" % w.fn, key="captured|%s" % w.fn)
                    continue
                ctx.ok("captured", where, "kept in %s" % st)
                # given back by a method the owner calls: rethrow of a value drawn from that field
                back = []
                for f in ents:
                    if f in workers or f.kind in ("ctor", "dtor"):
                        continue
                    G2 = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
                    if any(m.n()["k"] in CALLS and last(m.n().get("fn", "")) == "rethrow_exception" and mentions_field(G2, m, st) for m in G2.stmts()):
                        # every path of the stop method on which a failure is recorded rethrows: the rethrow is not behind an unrelated test
                        back.append(f)
                names = {last(f.fn) for f in back}
                if any(x for x in back if joins_all(P, x, rec, tf)):
                    ctx.ok("given-back", where, "rethrown by %s" % sorted(names))
                else:
                    ctx.bad("given-back", where, "failures kept in %s::%s by worker %s are never rethrown to the caller that stops the workers" % (bn, st, w.fn), key="given-back|%s" % w.fn)


def every_handle(ctx, G, d, joins, t, fld, bn):
    """the handles of a container are all joined: the join is repeated, skips nothing that can be joined, starts at the first"""
    if t.replace("const ", "").startswith("std::thread"):
        return
    J = {j.i for j in joins}
    for j in joins:
        n = j.n()
        where = j.inst.where(j.ref)
        if n["k"] == "CallExpr":
            ctx.ok("every-handle", where, "%s joined by an algorithm over the container" % fld)
            continue
        if not reach_any(G, j, {j.i}):
            ctx.bad("every-handle", where, "%s joins only one thread of %s" % (d.fn, fld), key="every-handle|%s|%s" % (bn, fld))
            continue
        bad = None
        for nd in G.nodes:
            for s, c in nd.succ:
                if not (c and c[0] == "if" and c[3] is True):
                    continue
                loop = cond_loop(c[1], c[2])
                if loop is None or c[1] is not j.inst or j.ref not in set(c[1].fn.walk(loop)):
                    continue
                ln = c[1].fn.nodes[loop]
                if ln["k"] == "ForStmt" and (ln.get("parts", {}).get("init", -1) or -1) >= 0:
                    for x in c[1].fn.walk(ln["parts"]["init"]):
                        for v in c[1].fn.nodes[x].get("decls", []) or []:
                            i0 = v.get("init", -1)
                            if i0 is not None and i0 >= 0 and (c[1].fn.nodes[i0].get("c") or 0) != 0 and any(c[1].fn.nodes[y].get("op") in ("++", "post++") for y in c[1].fn.walk(ln["parts"].get("inc", loop))):
                                bad = "does not start at the first thread"
                st, seen = [s], set()
                while st and not bad:
                    u = st.pop()
                    if u in seen or u in J:
                        continue
                    seen.add(u)
                    if u == nd.i or u == G.exit.i:
                        bad = "can leave out a thread that still runs"
                        break
                    for s2, c2 in G.nodes[u].succ:
                        if c2 and c2[0] == "exc":
                            continue
                        if c2 and any(a[0] == "false" and a[1][0] == "call" and last(a[1][1]) == "joinable" for a in edge_atoms(c2)):
                            continue
                        st.append(s2)
        if bad:
            ctx.bad("every-handle", where, "%s %s of %s" % (d.fn, bad, fld), key="every-handle|%s|%s" % (bn, fld))
        else:
            ctx.ok("every-handle", where, "each thread of %s is joined" % fld)


def handles_call(nd, fld, names):
    n = nd.n()
    if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")).split("<")[0] in names and "std::thread" in (n.get("rec") or ""):
        m = nd.inst.fn.nodes[n["ch"][0]]
        p = path(nd.inst, m["ch"][0]) if m.get("ch") else ("?",)
        return p[0] == "M" and p[1] == ("this",) and p[2] == fld
    if "clear" in names and n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
        p = path(nd.inst, n["ch"][1])
        return p[0] == "M" and p[1] == ("this",) and p[2] == fld
    return False


def rejoined(P, ctx, rec, ents, workers, tf, bn):
    """handles that were joined are not joined again: dropped after the join, before the next spawn, or tested with joinable()"""
    for fld, t in tf.items():
        if t.replace("const ", "").startswith("std::thread"):
            continue
        for f in ents:
            if f in workers or f.kind in ("ctor", "dtor"):
                continue
            G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
            sp = [nd for nd in G.stmts() if handles_call(nd, fld, ("emplace_back", "push_back"))]
            clears = {nd.i for nd in G.stmts() if handles_call(nd, fld, ("clear", "swap", "resize", "assign", "erase", "pop_back"))}
            for nd in sp:
                where = nd.inst.where(nd.ref)
                if not back_without(G, nd, clears, {G.entry.i}):
                    ctx.ok("rejoined", where, "%s is emptied before new workers start" % fld)
                    continue
                unsafe = []
                for g in ents:
                    if g in workers:
                        continue
                    H = Graph(P, g, dyn=rec, inline=inl_class(P, rec))
                    cl = {x.i for x in H.stmts() if handles_call(x, fld, ("clear", "swap", "resize", "assign", "erase", "pop_back"))}
                    MF = None
                    for x in H.stmts():
                        if is_join(x) and join_field(x) in (fld, None) and g.kind != "dtor":
                            if x.n()["k"] == "CallExpr":
                                continue
                            MF = MF or MustFacts(H)
                            if any(a[0] == "true" and a[1][0] == "call" and last(a[1][1]) == "joinable" for a in MF.at(x.i)):
                                continue
                            if reach_without(H, x, cl, {H.exit.i}) is not None:
                                unsafe.append(x)
                if unsafe:
                    ctx.bad("rejoined", where, "%s adds workers to %s while it still holds handles joined before (at %s): they are joined again and the call fails" % (f.fn, fld, unsafe[0].inst.where(unsafe[0].ref)), key="rejoined|%s|%s" % (bn, fld))
                else:
                    ctx.ok("rejoined", where, "joined handles are dropped or tested")


def rethrown_once(P, ctx, rec, ents, workers, bn):
    """a kept failure is taken out of its field before it is rethrown"""
    exf = {f["name"] for f in P.recs[rec]["fields"] if "exception_ptr" in f["t"]}
    seen = set()
    for f in ents:
        if f in workers:
            continue
        G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
        takes = {}
        for nd in G.stmts():
            n = nd.n()
            tgt = None
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                tgt = path(nd.inst, n["ch"][1])
            elif n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("pop", "pop_back", "pop_front", "clear", "erase", "swap", "reset"):
                m = nd.inst.fn.nodes[n["ch"][0]]
                tgt = path(nd.inst, m["ch"][0]) if m.get("ch") else None
            elif n["k"] == "CallExpr" and last(n.get("fn", "")).split("<")[0] in ("swap", "exchange", "move"):
                for a in n["ch"][1:]:
                    p = path(nd.inst, a)
                    if p[0] == "M" and p[1] == ("this",) and p[2] in exf:
                        takes.setdefault(p[2], set()).add(nd.i)
            if tgt and tgt[0] == "M" and tgt[1] == ("this",) and tgt[2] in exf:
                takes.setdefault(tgt[2], set()).add(nd.i)
        for nd in G.stmts():
            if not (nd.n()["k"] in CALLS and last(nd.n().get("fn", "")) == "rethrow_exception"):
                continue
            for fld in sorted(exf):
                if not mentions_field(G, nd, fld):
                    continue
                where = nd.inst.where(nd.ref)
                if where in seen:
                    continue
                seen.add(where)
                if back_without(G, nd, takes.get(fld, set()), {G.entry.i}):
                    ctx.bad("rethrown-once", where, "%s rethrows the failure kept in %s::%s but leaves it there: the next call reports it again" % (nd.inst.fn.fn, bn, fld), key="rethrown-once|%s|%s" % (nd.inst.fn.fn, fld))
                else:
                    ctx.ok("rethrown-once", where, "taken out of %s" % fld)


def joins_all(P, f, rec, tf):
    G = Graph(P, f, dyn=rec, inline=inl_class(P, rec))
    J = {nd.i for nd in G.stmts() if is_join(nd)}
    if not J:
        return False
    # no path from a join to the normal exit on which a recorded failure is known or unknown but not examined
    R = {nd.i for nd in G.stmts() if nd.n()["k"] in CALLS and last(nd.n().get("fn", "")) == "rethrow_exception"}
    T = set()
    for nd in G.nodes:
        for s, c in nd.succ:
            if c and c[0] == "if":
                for a in edge_atoms(c):
                    if mentions_exc(a):
                        T.add(nd.i)
    for j in J:
        if reach_without(G, G.nodes[j], R | T, {G.exit.i}) is not None:
            return False
    return True


def mentions_exc(a):
    for x in leaves(a) if isinstance(a, tuple) else []:
        if x and x[0] == "M" and len(x) > 2 and isinstance(x[2], str) and "xception" in x[2]:
            return True
    return False


def join_field(nd):
    """this-field whose thread(s) the join call refers to (through range-for variables)"""
    n = nd.n()
    if n["k"] == "CallExpr":
        fs = {nd.inst.fn.nodes[c]["n"] for a in n["ch"][1:] for c in nd.inst.fn.walk(a) if nd.inst.fn.nodes[c]["k"] == "MemberExpr" and nd.inst.fn.nodes[c].get("dk") == "field"}
        return list(fs)[0] if len(fs) == 1 else None
    m = nd.inst.fn.nodes[n["ch"][0]]
    if not m.get("ch"):
        return None
    for c in nd.inst.fn.walk(m["ch"][0]):
        x = nd.inst.fn.nodes[c]
        if x["k"] == "MemberExpr" and x.get("dk") == "field":
            return x["n"]
    return None


def unjoined_path(G, joins, flags, fld):
    """a path to the normal end without join and without evidence that no worker runs"""
    seen, st = set(), [(G.entry.i, False)]
    while st:
        u, quiet = st.pop()
        if (u, quiet) in seen or u in joins:
            continue
        seen.add((u, quiet))
        if u == G.exit.i:
            if not quiet:
                return True
            continue
        for s, c in G.nodes[u].succ:
            q = quiet
            if c and c[0] == "exc":
                x = G.nodes[u]
                if not (x.kind == "stmt" and (x.n()["k"] == "CXXThrowExpr" or last(x.n().get("fn", "")) == "rethrow_exception")):
                    continue        # only failures raised on purpose are followed, not allocation failures
            for a in edge_atoms(c) if not (c and c[0] == "exc") else []:
                if a[0] == "false" and a[1][0] == "M" and a[1][2] in flags:
                    q = True
                if a[0] == "false" and a[1][0] == "call" and last(a[1][1]) == "joinable":
                    q = True
                if a[0] in ("true",) and a[1][0] == "call" and last(a[1][1]) == "empty":
                    q = True
            # leaving a range-for over the handles (no element left) counts as joined
            if c and c[0] == "if" and c[3] is False:
                t = cond_loop(c[1], c[2])
                if t is not None and any(j for j in joins if G.nodes[j].inst is c[1] and G.nodes[j].ref in set(c[1].fn.walk(t))):
                    q = True
            st.append((s, q))
    return False


def cond_loop(inst, nid):
    for i, n in enumerate(inst.fn.nodes):
        if n and n["k"] in ("CXXForRangeStmt", "ForStmt", "WhileStmt"):
            if n.get("parts", {}).get("cond") == nid:
                return i
            if n["k"] == "CXXForRangeStmt" and nid in set(inst.fn.walk(i)) and inst.fn.nodes[nid].get("op") == "!=":
                return i
    return None


def joined_before(G, nd, flags):
    """on every path to nd: a join happened after the last spawn, or the active flag was seen down, or we are constructing"""
    if G.root.fn.kind == "ctor":
        return True
    seen, st = set(), [p for p in nd.pred]
    st = [(p, c) for p, c in nd.pred]
    seen = set()
    while st:
        u, c = st.pop()
        if c and c[0] == "exc":
            continue
        if any(a[0] == "false" and a[1][0] == "M" and a[1][2] in flags for a in edge_atoms(c)):
            continue
        if any(a[0] == "false" and a[1][0] == "call" and last(a[1][1]) == "joinable" for a in edge_atoms(c)):
            continue
        if c and c[0] == "if" and c[3] is False:
            t = cond_loop(c[1], c[2])
            if t is not None and any(joins_at(c[1].fn, c[1].fn.nodes[i]) for i in c[1].fn.walk(t)):
                continue
        if u in seen:
            continue
        seen.add(u)
        x = G.nodes[u]
        if x.kind == "stmt" and is_join(x):
            continue
        if u == G.entry.i:
            return False
        st.extend(x.pred)
    return True


def packaged(P, rec, nd):
    """the called std::function was drawn from a container whose elements are lambdas that only run a packaged_task"""
    n = nd.n()
    for f in P.methods_of(rec):
        for m in f.nodes:
            if m and m["k"] == "CXXMemberCallExpr" and last(m.get("fn", "")).split("<")[0] in GROW:
                o = f.nodes[m["ch"][0]]
                if not o.get("ch"):
                    continue
                on = f.nodes[o["ch"][0]]
                if on["k"] != "MemberExpr" or on.get("rec") != rec or "std::function" not in on.get("t", ""):
                    continue
                ok = False
                for a in m["ch"][1:]:
                    for i in f.walk(a):
                        x = f.nodes[i]
                        if x["k"] == "LambdaExpr":
                            l = P.lam.get((f.tu, x["lam"]))
                            if l:
                                cs = [y for y in l.nodes if y and y["k"] == "CXXOperatorCallExpr" and y.get("op") == "()"]
                                ok = bool(cs) and all((y.get("rec") or "").startswith("std::packaged_task") for y in cs)
                        if x["k"] == "DeclRefExpr" and "packaged_task" in x.get("t", ""):
                            ok = True
                return ok
    return None


def stored_exception(inst, h):
    fn = inst.fn
    for i in fn.walk(h):
        n = fn.nodes[i]
        if n["k"] in CALLS and last(n.get("fn", "")) == "current_exception":
            # field on the left of the assignment, or container it is pushed into
            for j in fn.walk(h):
                m = fn.nodes[j]
                if m["k"] == "MemberExpr" and m.get("dk") == "field" and "exception_ptr" in m.get("t", ""):
                    return m["n"]
                if m["k"] == "MemberExpr" and m.get("dk") == "field":
                    return m["n"]
            return stored_later(inst, h, i)
    return None


def stored_later(inst, h, cur):
    """the handler keeps the failure in a local pointer that is put into a field after the try statement"""
    fn = inst.fn
    par = fn.parents()
    j, var = cur, None
    while j in par and j != h:
        j = par[j]
        m = fn.nodes[j]
        if m["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and m.get("op") == "=":
            l = m["ch"][0] if m["k"] == "BinaryOperator" else m["ch"][1]
            for x in fn.walk(l):
                if fn.nodes[x]["k"] == "DeclRefExpr" and fn.nodes[x].get("dk") == "local":
                    var = fn.nodes[x]["d"]
            break
    if var is None:
        return None
    inh = set(fn.walk(h))
    for j, m in enumerate(fn.nodes):
        if not m or j in inh:
            continue
        tgt = None
        if m["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and m.get("op") == "=":
            l, r = (m["ch"][0], m["ch"][1:]) if m["k"] == "BinaryOperator" else (m["ch"][1], m["ch"][2:])
        elif m["k"] == "CXXMemberCallExpr" and last(m.get("fn", "")).split("<")[0] in GROW:
            l, r = m["ch"][0], m["ch"][1:]
        else:
            continue
        fl = [fn.nodes[x]["n"] for x in fn.walk(l) if fn.nodes[x]["k"] == "MemberExpr" and fn.nodes[x].get("dk") == "field"]
        if fl and any(fn.nodes[x]["k"] == "DeclRefExpr" and fn.nodes[x].get("d") == var for a in r for x in fn.walk(a)):
            # the store may only depend on the pointer being set
            k, ok = j, True
            while k in par:
                k, prev = par[k], k
                q = fn.nodes[k]
                if q["k"] == "IfStmt" and prev != q.get("parts", {}).get("cond"):
                    ds = {fn.nodes[x].get("d") for x in fn.walk(q["parts"]["cond"]) if fn.nodes[x]["k"] == "DeclRefExpr" and fn.nodes[x].get("dk") == "local"}
                    fs = [x for x in fn.walk(q["parts"]["cond"]) if fn.nodes[x]["k"] == "MemberExpr" and fn.nodes[x].get("dk") == "field"]
                    if h in set(fn.walk(k)):
                        break
                    ok = ok and ds == {var} and not fs and prev == q["parts"].get("then")
                if h in set(fn.walk(k)):
                    break
            if ok:
                return fl[0]
    return None


def mentions_field(G, nd, fld):
    fn, inst = nd.inst.fn, nd.inst
    def look(inst, nid, d=0):
        if d > 6:
            return False
        for i in inst.fn.walk(nid):
            x = inst.fn.nodes[i]
            if x["k"] == "MemberExpr" and x.get("dk") == "field" and x["n"] == fld:
                return True
            if x["k"] == "DeclRefExpr" and x.get("dk") in ("local", "parm"):
                o, info = inst.find_decl(x["d"])
                if o is not None and info is not None and info.get("init", -1) >= 0 and look(o, info["init"], d + 1):
                    return True
                if o is not None and x["d"] in o.bind and o.bind[x["d"]] and look(o.bind[x["d"]][0], o.bind[x["d"]][1], d + 1):
                    return True
                for y in o.fn.nodes if o is not None and d < 3 else []:      # filled later: assignment or swap
                    if y and (y["k"] == "CallExpr" and last(y.get("fn", "")) == "swap" or y["k"] == "CXXOperatorCallExpr" and y.get("op") == "=" or y["k"] == "CXXMemberCallExpr" and last(y.get("fn", "")) == "swap"):
                        ch = list(y["ch"]) if y["k"] != "CXXMemberCallExpr" else [o.fn.nodes[y["ch"][0]]["ch"][0]] + y["ch"][1:] if o.fn.nodes[y["ch"][0]].get("ch") else []
                        own = [c for c in ch if o.fn.nodes[c]["k"] == "DeclRefExpr" and o.fn.nodes[c].get("d") == x["d"]]
                        if own and any(look(o, c, d + 2) for c in ch if c not in own):
                            return True
        return False
    return look(inst, nd.ref)


# ---------------------------------------------------------------------------------------------------------------- C05
class MutexId:
    def __init__(self, P):
        self.P = P
        self.owner = {}
        for r, d in P.recs.items():
            for f in d["fields"]:
                if MUTEXT.match(f["t"]):
                    self.owner.setdefault(f["name"], set()).add(base_name(r))
        self.ret = {}
        for f in P.all(False):
            if "std::mutex &" in f.rt or "std::mutex&" in f.rt:
                for n in f.nodes:
                    if n and n["k"] == "ReturnStmt" and n.get("ch"):
                        x = f.nodes[n["ch"][0]]
                        while x["k"] in CASTS and x.get("ch"):
                            x = f.nodes[x["ch"][0]]
                        if x["k"] == "DeclRefExpr":
                            self.ret[f.fn] = "global " + (x.get("q") or x["n"])

    def of(self, p, rec):
        if p[0] == "M":
            own = self.owner.get(p[2], set())
            if p[1] == ("this",) and rec:
                for c in [rec] + self.P.bases(rec):
                    if base_name(c) in own:
                        return base_name(c) + "::" + p[2]
            if len(own) == 1:
                return next(iter(own)) + "::" + p[2]
            return "?::" + p[2]
        if p[0] == "G":
            return "global " + p[1]
        if p[0] == "call":
            return self.ret.get(p[1], "call " + p[1])
        return None


def lock_wrappers(P):
    """classes that hold a lock for their life time (a lock member)"""
    return {r for r, d in P.recs.items() if any(LOCKT.match(f["t"]) for f in d["fields"])}


def c05(P, ctx):
    LAMS[0], PROG[0] = P.lam, P
    c05_work(P, ctx)
    M = MutexId(P)
    W = lock_wrappers(P)
    fns = P.all()

    def wrapfn(inst, n, callee):
        return callee.rec in W and callee.kind in ("ctor", "dtor") and not (callee.rec or "").startswith("lv::unlock_guard<")
    encl = {}       # lambda -> class of the method it is written in (through nested lambdas)
    for f in fns:
        for n in f.nodes:
            if n and n["k"] == "LambdaExpr":
                encl[(f.tu, n.get("lam"))] = f

    def recof(f):
        d = 0
        while f is not None and f.kind == "lambda" and d < 8:
            f = next((encl.get(kk) for kk, l in lamkeys.get(id(f), ())), None)
            d += 1
        return f.rec if f is not None else None
    lamkeys = {}
    for kk, l in P.lam.items():
        lamkeys.setdefault(id(l), []).append((kk, l))
    direct = {}     # fn key -> set of mutex ids acquired in the body itself
    graphs = {}
    key = lambda f: f.fk if not f.fk.startswith("lambda#") else (f.tu, f.fk)

    def touches(f):
        for n in f.nodes:
            if n and n["k"] in CTORS and (LOCKT.match(n.get("t", "")) or n.get("rec") in W):
                return True
            if n and n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("lock", "try_lock", "wait", "wait_for", "wait_until") and "mutex" in (n.get("rec") or ""):
                return True
        return any(LOCKT.match(i.get("t", "")) for i in f.d.get("inits", []))
    ntouch = 0
    for f in fns:
        if not touches(f):
            continue
        ntouch += 1
        G = Graph(P, f, dyn=f.rec, inline=wrapfn, maxdepth=2)
        L = Locks(G)
        graphs[key(f)] = (f, G, L)
        direct[key(f)] = {M.of(m, recof(f)) for nd, m, h in L.acquires} - {None}
    # call graph (virtual calls reach every override)
    over = {}
    for r in P.recs.values():
        for m in r["methods"]:
            for o in m["over"]:
                over.setdefault(o, set()).add(m["fk"])

    def targets(f, n):
        fk = n.get("fk")
        if not fk:
            return []
        out, st = [], [fk]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            t = P.get(x, f.tu)
            if t is not None:
                out.append(key(t))
            if n.get("virt") and not n.get("qualcall"):
                st.extend(over.get(x, ()))
        return out
    calls = {}
    for f in fns:
        cs = set()
        thr = set()     # calls made to build the exception of a throw: only reached when the program reports a defect
        for i, n in enumerate(f.nodes):
            if n and n["k"] == "CXXThrowExpr":
                thr.update(f.walk(i))
        for i, n in enumerate(f.nodes):
            if n and n["k"] in CALLS and i not in thr:
                cs.update(targets(f, n))
                if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and len(n["ch"]) > 1:
                    x = n["ch"][1]
                    while f.nodes[x]["k"] in CASTS and f.nodes[x].get("ch"):
                        x = f.nodes[x]["ch"][0]
                    for _ in range(6):      # a lambda called through the local it was stored in, or directly
                        y = f.nodes[x]
                        if y["k"] == "LambdaExpr":
                            l = P.lam.get((f.tu, y.get("lam")))
                            if l is not None:
                                cs.add(key(l))
                            break
                        if y["k"] == "DeclRefExpr" and decls_of(f).get(y.get("d"), {}).get("init", -1) >= 0:
                            x = decls_of(f)[y["d"]]["init"]
                        elif y["k"] in CASTS | CTORS and y.get("ch"):
                            x = y["ch"][0]
                        else:
                            break
        calls[key(f)] = cs
    summ = {key(f): set(direct.get(key(f), ())) for f in fns}
    ch = True
    while ch:
        ch = False
        for f in fns:
            k = key(f)
            for c in calls[k]:
                new = summ.get(c, set()) - summ[k]
                if new:
                    summ[k] |= new
                    ch = True
    byk = {key(f): f for f in fns}

    def trace(k, m, depth=0):
        """call chain from k to an acquisition of m"""
        seen = {k}
        st = [(k, [])]
        while st:
            x, p = st.pop(0)
            if m in direct.get(x, ()):
                return [byk[y].fn for y in p + [x]]
            for c in calls[x]:
                if c not in seen and m in summ.get(c, ()):
                    seen.add(c)
                    st.append((c, p + [x]))
        return []
    edges = {}
    tfn, tset = None, set()
    for k, (f, G, L) in sorted(graphs.items(), key=lambda x: str(x[0])):
        for nd, m, held in L.acquires:
            mi = M.of(m, recof(f))
            for h in held:
                hi = M.of(h, recof(f))
                where = nd.inst.where(nd.ref if nd.kind == "stmt" else None)
                if hi == mi and hi is not None:
                    if h == m or hi.startswith("global"):
                        ctx.bad("no-relock", where, "%s acquires %s while already holding it: the thread blocks itself" % (f.fn, hi), key="no-relock|%s|%s" % (f.fn, hi))
                elif hi and mi:
                    edges.setdefault((hi, mi), where + " in " + f.fn)
        for nd in G.stmts():
            n = nd.n()
            if n["k"] not in CALLS or nd.ref in nd.inst.calls:
                continue
            if nd.inst.fn is not tfn:
                tfn = nd.inst.fn
                tset = {x for i, y in enumerate(tfn.nodes) if y and y["k"] == "CXXThrowExpr" for x in tfn.walk(i)}
            if nd.ref in tset:
                continue
            held = {M.of(h, recof(f)) for h in L.held(nd.i)} - {None}
            if not held:
                continue
            where = nd.inst.where(nd.ref)
            nm = last(n.get("fn", ""))
            if nm.split("<")[0] in ("join", "for_each") and is_join(nd):
                c05_join(P, ctx, M, f, G, nd, held, summ, key)
                continue
            acq = set()
            for t in targets(nd.inst.fn, n):
                acq |= summ.get(t, set())
            if nm in ("operator()",) and nd.inst.fn.nodes[n["ch"][0]]:
                lam = G._lambda_of(nd.inst, n["ch"][1]) if len(n["ch"]) > 1 else None
                if lam:
                    acq |= summ.get(key(lam[0]), set())
            for a in acq:
                for h in held:
                    if a == h:
                        t = [t for t in targets(nd.inst.fn, n) if a in summ.get(t, ())]
                        ch_ = trace(t[0], a) if t else []
                        if a.startswith("global") or same_object_call(nd):
                            ctx.bad("no-relock", where, "%s holds %s and calls %s, which acquires it again (%s): the thread blocks itself" % (f.fn, h, n.get("fn"), " -> ".join(ch_)), key="no-relock|%s|%s" % (f.fn, h))
                    else:
                        edges.setdefault((h, a), where + " in " + f.fn)
            ctx.ok("call-under-lock", where, "%s calls %s" % ("/".join(sorted(held)), nm))
        for nd, m, held in L.acquires:
            ctx.ok("acquire", nd.inst.where(nd.ref if nd.kind == "stmt" else None), "%s with %s held" % (M.of(m, recof(f)), sorted(filter(None, (M.of(h, recof(f)) for h in held)))))
    # order cycles
    g = {}
    for (a, b), w in edges.items():
        g.setdefault(a, {})[b] = w
    for a in sorted(g):
        for b in sorted(g[a]):
            # path b ->* a
            seen, st = set(), [b]
            while st:
                x = st.pop()
                if x == a:
                    if a < b:
                        ctx.bad("lock-order", g[a][b], "%s and %s are acquired in opposite orders (%s): two threads can block each other" % (a, b, "; ".join("%s->%s at %s" % (x1, y1, w1) for (x1, y1), w1 in sorted(edges.items()) if {x1, y1} == {a, b})), key="lock-order|%s|%s" % (a, b))
                    break
                if x in seen:
                    continue
                seen.add(x)
                st.extend(g.get(x, ()))
            else:
                ctx.ok("lock-order", g[a][b], "%s before %s" % (a, b))
    ctx.stats["functions_with_locks"] = ntouch
    ctx.stats["order_edges"] = sorted("%s -> %s" % e for e in edges)


def same_object_call(nd):
    """the call is made on the current object (this->f() / f())"""
    n = nd.n()
    if n["k"] == "CXXMemberCallExpr":
        m = nd.inst.fn.nodes[n["ch"][0]]
        if m["k"] == "MemberExpr":
            b = path(nd.inst, m["ch"][0]) if m.get("ch") else ("&", ("this",))
            return b in (("&", ("this",)), ("this",))
    return False


def c05_work(P, ctx):
    """queued user work must not run under the mutex that queueing and stopping take: a task that queues another one would block itself"""
    for rec in sorted(threaded_classes(P)):
        conts = containers(P, rec)
        mus = [f["name"] for f in P.recs[rec]["fields"] if MUTEXT.match(f["t"])]
        for w in worker_entries(P, rec) if conts else []:
            G = Graph(P, w, dyn=rec, inline=inl_class(P, rec))
            S = list(G.stmts())
            if not any(shrink_of(nd, conts) for nd in S):
                continue
            L = Locks(G)
            for nd in S:
                if not is_fcall(nd.n()):
                    continue
                held = [m for m in L.held(nd.i) if m[0] == "M" and m[2] in mus]
                if held:
                    ctx.bad("no-relock", nd.inst.where(nd.ref), "%s runs queued user work while holding %s::%s: work that queues more work locks it again and blocks itself" % (w.fn, base_name(rec), held[0][2]), key="no-relock|work|%s" % w.fn)
                else:
                    ctx.ok("no-relock", nd.inst.where(nd.ref), "user work runs unlocked")


def c05_join(P, ctx, M, f, G, nd, held, summ, key):
    """joining a worker that needs a lock the joiner holds"""
    where = nd.inst.where(nd.ref)
    need = set()
    for w in worker_entries(P, f.rec) if f.rec else []:
        need |= summ.get(key(w), set())
    bad = {h for h in held if h in need}
    if not bad:
        ctx.ok("join-unlocked", where, "nothing the worker needs is held")
        return
    F = MustFacts(G)
    facts = F.at(nd.i)
    done = any(a[0] in ("true", "!=") and mentions_exc(a) for a in facts)
    if done:
        ctx.ok("join-unlocked", where, "the worker is known to have ended (its failure is recorded)")
    else:
        ctx.bad("join-unlocked", where, "%s joins a worker while holding %s, which that worker needs to end" % (f.fn, "/".join(sorted(bad))), key="join-unlocked|%s" % f.fn)
