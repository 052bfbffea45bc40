"""Interprocedural flow graphs by inlining (helpers extracted from a function stay visible), access paths, and must-facts.

Graph nodes are CFG elements of clang's CFG (implicit destructors included) of an entry function and of every repository
function it calls, bound through parameters, `this`, lambda captures and reference locals."""

CASTS = {"CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr", "CXXConstCastExpr",
         "CXXReinterpretCastExpr", "CXXDynamicCastExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"}
CTORS = {"CXXConstructExpr", "CXXTemporaryObjectExpr"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


def last(q):
    """unqualified name of a (possibly templated) qualified function name"""
    depth = 0
    for i in range(len(q) - 1, 0, -1):
        ch = q[i]
        if ch == ">" and q[i - 1] != "-":
            depth += 1
        elif ch == "<":
            depth -= 1
        elif ch == ":" and depth == 0 and q[i - 1] == ":":
            return q[i + 1:]
        if depth < 0:
            break
    if "operator" in q:
        return "operator" + q.split("operator")[-1]
    return q


def callee_args(n):
    """(object node or None, argument nodes) of a call-like node"""
    k = n["k"]
    ch = n.get("ch", [])
    if k in CTORS:
        return None, list(ch)
    if k == "CXXMemberCallExpr":
        return ("member", ch[0]), list(ch[1:])
    if k == "CXXOperatorCallExpr":
        if n.get("rec") is not None and not n.get("mstatic"):
            return ("arg", ch[1]) if len(ch) > 1 else None, list(ch[2:])
        return None, list(ch[1:])
    return None, list(ch[1:])


class Inst:
    _n = 0
    __slots__ = ("id", "fn", "this", "bind", "defenv", "caller", "callnid", "depth", "calls", "_p", "_v", "decl", "dyn", "rets", "reg", "lams")

    def __init__(self, fn, this=None, bind=None, defenv=None, caller=None, callnid=None, depth=0, dyn=None):
        Inst._n += 1
        self.reg = caller.reg if caller is not None else {}
        self.id = Inst._n
        self.fn = fn
        self.this = this
        self.bind = bind or {}
        self.defenv = defenv
        self.caller = caller
        self.callnid = callnid
        self.depth = depth
        self.dyn = dyn
        self.calls = {}
        self._p = {}
        self._v = {}
        self.rets = []
        self.lams = {}
        self.decl = decls_of(fn)

    def node(self, nid):
        return self.fn.nodes[nid]

    def where(self, nid=None):
        s = self.fn.where(nid)
        c, n = self.caller, self.callnid
        d = 0
        while c is not None and d < 6:
            s += " <- " + c.fn.where(n)
            c, n = c.caller, c.callnid
            d += 1
        return s

    def find_decl(self, d):
        """(inst, declinfo) owning declaration id d, looking through lambda definition environments"""
        i = self
        while i is not None:
            if d in i.decl:
                return i, i.decl[d]
            if d in i.bind:
                return i, None
            if any(p["id"] == d for p in i.fn.params):
                return i, None
            i = i.defenv
        return None, None


def decls_of(fn):
    if fn._blk is not None:
        return fn._blk
    out = {}
    for n in fn.nodes:
        if n and n["k"] == "DeclStmt":
            for d in n["decls"]:
                if d["id"] not in out or "init" in d:
                    out[d["id"]] = d
    fn._blk = out
    return out


def mutated(fn):
    """declaration ids of locals/params that are written after initialisation inside fn (or its lambdas are handled by caller)"""
    if fn._mut is not None:
        return fn._mut
    out = set()

    def base(nid):
        while nid is not None and nid >= 0:
            n = fn.nodes[nid]
            k = n["k"]
            if k == "DeclRefExpr":
                return n["d"]
            if k in CASTS or k in ("ArraySubscriptExpr",):
                nid = n["ch"][0]
            elif k == "MemberExpr" and not n.get("arrow"):
                nid = n["ch"][0]
            elif k == "CXXOperatorCallExpr" and n.get("op") in ("[]",) and len(n["ch"]) > 1:
                nid = n["ch"][1]
            else:
                return None
        return None
    for n in fn.nodes:
        if not n:
            continue
        k = n["k"]
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
            b = base(n["ch"][0])
            if b is not None:
                out.add(b)
        elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--", "&"):
            b = base(n["ch"][0])
            if b is not None:
                out.add(b)
        elif k == "CXXOperatorCallExpr" and (n.get("op") in ASSIGN or n.get("op") in ("++", "--", ">>", "<<")):
            for c in n["ch"][1:2 if n.get("op") in ASSIGN else None]:
                b = base(c)
                if b is not None and "const" not in fn.nodes[c].get("t", ""):
                    out.add(b)
        elif k in CALLS:
            obj, args = callee_args(n)
            if obj and obj[0] == "member":
                m = fn.nodes[obj[1]]
                if m["k"] == "MemberExpr" and not n.get("mconst") and m.get("ch"):
                    b = base(m["ch"][0])
                    if b is not None and not m.get("arrow"):
                        out.add(b)
            for a, t in zip(args, n.get("pt", [])):
                if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                    b = base(a)
                    if b is not None:
                        out.add(b)
        elif k == "LambdaExpr":
            for c in n.get("caps", []):
                if c.get("ref") and c.get("d") is not None:
                    out.add(("cap", c["d"]))
    fn._mut = out
    return out


def sub(x, y):
    """does tuple tree x contain y"""
    if x == y:
        return True
    if isinstance(x, (tuple, frozenset)):
        for c in x:
            if c == y or (isinstance(c, (tuple, frozenset)) and sub(c, y)):
                return True
    return False


def leaves(x, out=None):
    out = out if out is not None else []
    if isinstance(x, tuple) and x:
        if isinstance(x[0], str):
            out.append(x)
        for c in x:
            if isinstance(c, tuple):
                leaves(c, out)
    return out


def path(inst, nid, depth=0):
    return _norm(inst, nid, False, depth)


def val(inst, nid, depth=0):
    return _norm(inst, nid, True, depth)


def _norm(inst, nid, v, depth):
    if nid is None or nid < 0:
        return ("?",)
    cache = inst._v if v else inst._p
    if nid in cache:
        return cache[nid]
    if depth > 60:
        return ("?",)
    cache[nid] = ("rec", inst.id, nid)
    r = _norm0(inst, nid, v, depth + 1)
    cache[nid] = r
    return r


def deref(p):
    if p[0] == "&":
        return p[1]
    return ("*", p)


def _norm0(inst, nid, v, depth):
    fn = inst.fn
    n = fn.nodes[nid]
    k = n["k"]
    if v and "c" in n:
        return ("c", n["c"])
    if k == "DeclRefExpr":
        dk = n.get("dk")
        if dk in ("parm", "local", "slocal"):
            d = n["d"]
            owner, info = inst.find_decl(d)
            if owner is None:
                return ("L", 0, d, n["n"])
            if d in owner.bind:
                b = owner.bind[d]
                if b is None:
                    return ("L", owner.id, d, n["n"])
                ci, cn, isref = b
                if isref or (v and d not in mutated(owner.fn)):
                    return _norm(ci, cn, v, depth)
                return ("L", owner.id, d, n["n"])
            if info is not None:
                if info.get("ref") and info.get("init", -1) >= 0:
                    return _norm(owner, info["init"], v, depth)
                if v and info.get("init", -1) >= 0 and d not in mutated(owner.fn) and ("cap", d) not in mutated(owner.fn) and not info.get("static"):
                    return _norm(owner, info["init"], v, depth)
                return ("L", owner.id, d, n["n"])
            return ("P", owner.id, d, n["n"])
        if dk == "enum":
            return ("c", n["c"]) if "c" in n else ("G", n.get("q"))
        if dk == "func":
            return ("F", n.get("fk"), n.get("fn"))
        return ("G", n.get("q", n["n"]))
    if k == "CXXThisExpr":
        i = inst
        while i is not None and i.fn.kind == "lambda" and i.defenv is not None:
            i = i.defenv
        t = i.this if i is not None else None
        return ("&", t) if t is not None else ("&", ("this",))
    if k == "MemberExpr":
        if n.get("dk") == "smember":
            return ("G", n["q"])
        b = _norm(inst, n["ch"][0], v, depth) if n.get("ch") else ("&", ("this",))
        if n.get("arrow"):
            b = deref(b)
        if n.get("ref"):
            r = inst.reg.get((b, n["n"]))
            if r is not None:
                return _norm(r[0], r[1], v, depth)
        return ("M", b, n["n"])
    if k in CASTS:
        return _norm(inst, n["ch"][0], v, depth) if n.get("ch") else ("?",)
    if "c" in n and k not in CALLS:
        return ("c", n["c"])
    if k == "FloatingLiteral":
        return ("c", n.get("fc"))
    if k == "StringLiteral":
        return ("s", n.get("v"))
    if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
        return ("c", 0)
    if k == "UnaryOperator":
        s = _norm(inst, n["ch"][0], v, depth)
        op = n["op"]
        if op == "*":
            return deref(s)
        if op == "&":
            return s[1] if s[0] == "*" else ("&", s)
        if op == "+":
            return s
        return ("u" + op, s)
    if k == "ArraySubscriptExpr":
        return ("idx", _norm(inst, n["ch"][0], v, depth), _norm(inst, n["ch"][1], v, depth))
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        op = n["op"]
        a, b = _norm(inst, n["ch"][0], v, depth), _norm(inst, n["ch"][1], v, depth)
        if op == ",":
            return b
        if op in ("+", "*", "&", "|") and repr(b) < repr(a):
            a, b = b, a
        return ("b" + op, a, b)
    if k == "ConditionalOperator":
        return ("?:", _norm(inst, n["ch"][0], v, depth), _norm(inst, n["ch"][1], v, depth), _norm(inst, n["ch"][2], v, depth))
    if k in CTORS:
        args = [c for c in n["ch"]]
        if n.get("cpmv") and len(args) >= 1:
            return _norm(inst, args[0], v, depth)
        return ("new", n.get("fn"), tuple(_norm(inst, a, v, depth) for a in args))
    if k in CALLS:
        fnq = n.get("fn", "?")
        nm = last(fnq)
        obj, args = callee_args(n)
        al = [_norm(inst, a, v, depth) for a in args]
        if obj:
            if obj[0] == "member":
                m = fn.nodes[obj[1]]
                if m["k"] == "MemberExpr":
                    o = _norm(inst, m["ch"][0], v, depth) if m.get("ch") else ("&", ("this",))
                    if m.get("arrow"):
                        o = deref(o)
                else:
                    o = _norm(inst, obj[1], v, depth)
            else:
                o = _norm(inst, obj[1], v, depth)
            if k == "CXXOperatorCallExpr":
                op = n["op"]
                if op == "[]":
                    return ("idx", o, al[0] if al else ("?",))
                if op == "*" and not al:
                    return deref(o)
                if op == "->":
                    return ("&", deref(o))
                return ("op" + op, o) + tuple(al)
            if nm.startswith("operator ") and not al:  # conversion operator (atomics, InputArray, ...)
                return o
            if nm == "load" and "atomic" in fnq:
                return o
            return ("call", fnq, o) + tuple(al)
        if k == "CXXOperatorCallExpr":
            return ("op" + n["op"],) + tuple(al)
        if nm in ("move", "forward") and fnq.startswith("std::") and len(al) == 1:
            return al[0]
        # value of a small inlinable accessor: single return expression
        ci = inst.calls.get(nid)
        return ("call", fnq) + tuple(al)
    if k == "LambdaExpr":
        return ("lam", inst.id, n.get("lam"))
    if k == "CXXDefaultArgExpr":
        return ("?",)
    return ("n", inst.id, nid)


# ------------------------------------------------------------------------------------------------ graph
class Node:
    __slots__ = ("i", "inst", "kind", "ref", "succ", "pred", "exc")

    def __init__(self, i, inst, kind, ref):
        self.i = i
        self.inst = inst
        self.kind = kind      # stmt | dtor | tdtor | mdtor | bdtor | init | enter | leave | join | exit
        self.ref = ref
        self.succ = []        # (node index, cond)   cond = None | ("if", inst, nid, bool) | ("case", inst, nid, [consts])
        self.pred = []
        self.exc = False

    def n(self):
        return self.inst.fn.nodes[self.ref] if self.kind == "stmt" else None


class Graph:
    def __init__(self, P, fn, dyn=None, inline=None, maxdepth=10, this=("this",), maxnodes=200000, drop_throw=False):
        self.P = P
        self.drop_throw = drop_throw   # leave out the edges of uncaught exceptions (paths that complete normally)
        self.nodes = []
        self.inline = inline or (lambda inst, n, callee: True)
        self.maxdepth = maxdepth
        self.maxnodes = maxnodes
        self.truncated = []
        self.insts = []
        self.root = Inst(fn, this=this, dyn=dyn or fn.rec)
        e, x = self._build(self.root, [])
        self.entry, self.exit = e, x
        for i in self.insts:
            i._p.clear()
            i._v.clear()
        for nd in self.nodes:
            for s, c in nd.succ:
                self.nodes[s].pred.append((nd.i, c))

    def new(self, inst, kind, ref):
        nd = Node(len(self.nodes), inst, kind, ref)
        self.nodes.append(nd)
        return nd

    # -- resolve the function a call-like node reaches (repository functions only)
    def target(self, inst, nid):
        n = inst.fn.nodes[nid]
        fk = n.get("fk")
        if n["k"] in CALLS:
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()":
                o = path(inst, n["ch"][1])
                lam = self._lambda_of(inst, n["ch"][1])
                if lam:
                    return lam
            if fk is None:
                return None
            if n.get("virt") and not n.get("qualcall"):
                obj, _ = callee_args(n)
                dyn = None
                if obj and obj[0] == "member":
                    m = inst.fn.nodes[obj[1]]
                    if m["k"] == "MemberExpr":
                        b = m["ch"][0] if m.get("ch") else None
                        p = path(inst, b) if b is not None else ("&", ("this",))
                        if p == ("&", ("this",)) or p == ("this",):
                            dyn = self.root.dyn
                if dyn:
                    f = self.P.final_overrider(fk, dyn)
                    if f:
                        fk = f
                else:
                    return None
            f = self.P.get(fk, inst.fn.tu)
            if f is not None:
                return f, None
        return None

    def _lambda_of(self, inst, nid, d=0):
        """(Fn, defining inst) if the expression denotes a lambda whose body is known"""
        if d > 12 or nid is None or nid < 0:
            return None
        n = inst.fn.nodes[nid]
        k = n["k"]
        if k == "LambdaExpr":
            f = self.P.lam.get((inst.fn.tu, n["lam"]))
            return (f, inst) if f else None
        if k in CASTS or k in CTORS:
            return self._lambda_of(inst, n["ch"][0], d + 1) if n.get("ch") else None
        if k in ("CallExpr",) and last(n.get("fn", "")) in ("move", "forward") and len(n["ch"]) > 1:
            return self._lambda_of(inst, n["ch"][1], d + 1)
        if k == "DeclRefExpr" and n.get("dk") in ("local", "parm", "slocal"):
            owner, info = inst.find_decl(n["d"])
            if owner is None:
                return None
            if n["d"] in owner.bind and owner.bind[n["d"]]:
                ci, cn, _ = owner.bind[n["d"]]
                return self._lambda_of(ci, cn, d + 1)
            if info and info.get("init", -1) >= 0:
                return self._lambda_of(owner, info["init"], d + 1)
        return None

    def _active(self, inst, f):
        i = inst
        while i is not None:
            if i.fn is f:
                return True
            i = i.caller
        return False

    def make_inst(self, inst, nid, f, defenv):
        n = inst.fn.nodes[nid]
        obj, args = callee_args(n)
        this = None
        dyn = inst.dyn
        if f.kind in ("method", "dtor") and not f.d.get("mstatic"):
            if obj and obj[0] == "member":
                m = inst.fn.nodes[obj[1]]
                if m["k"] == "MemberExpr":
                    b = path(inst, m["ch"][0]) if m.get("ch") else ("&", ("this",))
                    this = deref(b) if m.get("arrow") else b
                else:
                    this = path(inst, obj[1])
            elif obj:
                this = path(inst, obj[1])
        elif f.kind == "ctor":
            this = ("obj", inst.id, nid)
            par = inst.fn.parents()
        if f.kind == "lambda":
            args = args if n["k"] != "CXXOperatorCallExpr" else list(n["ch"][2:])
        bind = {}
        for p, a in zip(f.params, args):
            bind[p["id"]] = (inst, a, bool(p.get("ref")) or p["t"].endswith("*"))
        ni = Inst(f, this=this, bind=bind, defenv=defenv, caller=inst, callnid=nid, depth=inst.depth + 1, dyn=dyn)
        return ni

    def _build(self, inst, trystack):
        fn = inst.fn
        self.insts.append(inst)
        ent = self.new(inst, "enter", None)
        ext = self.new(inst, "exit", None)
        first, lastn = {}, {}
        # owner of constructed objects: DeclStmt var <- ctor
        ctor_owner = {}
        for d in inst.decl.values():
            if d.get("init", -1) >= 0:
                ctor_owner[d["init"]] = ("L", inst.id, d["id"], d["name"])
        for bid, b in sorted(fn.cfg.items(), key=lambda x: -x[0]):
            cur = self.new(inst, "join", bid)
            first[bid] = cur
            seen = set()
            for e in b["el"]:
                if len(self.nodes) > self.maxnodes:
                    self.truncated.append(inst.where())
                    break
                if isinstance(e, int):
                    if e < 0 or e in seen:
                        continue
                    seen.add(e)
                    n = fn.nodes[e]
                    nd = self.new(inst, "stmt", e)
                    cur.succ.append((nd.i, None))
                    cur = nd
                    if n["k"] == "ReturnStmt":
                        inst.rets.append(nd)
                    if n["k"] in CALLS:
                        t = self.target(inst, e)
                        if t and t[0].cfg and inst.depth < self.maxdepth and not self._active(inst, t[0]) and self.inline(inst, n, t[0]):
                            ni = self.make_inst(inst, e, t[0], t[1])
                            if t[0].kind == "ctor" and e in ctor_owner:
                                ni.this = ctor_owner[e]
                            inst.calls[e] = ni
                            ce, cx = self._build(ni, trystack)
                            cur.succ.append((ce.i, None))
                            back = self.new(inst, "leave", e)
                            cx.succ.append((back.i, None))
                            cur = back
                else:
                    kind = next(k for k in ("init", "dtor", "tdtor", "mdtor", "bdtor") if k in e)
                    if kind == "init" and e.get("field") and e["init"] >= 0 and inst.this is not None:
                        inst.reg[(inst.this, e["field"])] = (inst, e["init"])
                    nd = self.new(inst, kind, e)
                    cur.succ.append((nd.i, None))
                    cur = nd
                    if kind in ("dtor", "tdtor") and e.get("fk"):
                        f = self.P.get(e["fk"])
                        if f is not None and f.cfg and inst.depth < self.maxdepth and not self._active(inst, f) and self.inline(inst, None, f):
                            if kind == "dtor":
                                this = ("L", inst.id, e["dtor"], e["n"])
                            else:
                                this = ("obj", inst.id, e["tdtor"])
                            ni = Inst(f, this=this, caller=inst, callnid=None, depth=inst.depth + 1, dyn=inst.dyn)
                            ce, cx = self._build(ni, trystack)
                            cur.succ.append((ce.i, None))
                            back = self.new(inst, "leave", None)
                            cx.succ.append((back.i, None))
                            cur = back
            lastn[bid] = cur
        for bid, b in fn.cfg.items():
            src = lastn[bid]
            su = b["succ"]
            cond = b.get("cond")
            term = b.get("term")
            if bid == fn.exit:
                src.succ.append((ext.i, None))
                continue
            if self.drop_throw and any(isinstance(e, int) and e >= 0 and fn.nodes[e]["k"] == "CXXThrowExpr" for e in b["el"]):
                su = [x if x != fn.exit else None for x in su]
            if term == "SwitchStmt":
                for s in su:
                    if s is None or s < 0:
                        continue
                    lab = fn.cfg[s].get("label")
                    c = None
                    if lab is not None and fn.nodes[lab]["k"] == "CaseStmt" and cond is not None:
                        c = ("case", inst, cond, fn.nodes[lab].get("c"))
                    src.succ.append((first[s].i, c))
                continue
            for idx, s in enumerate(su):
                if s is None or s < 0:
                    continue
                c = None
                if cond is not None and cond >= 0 and len(su) == 2 and not b.get("tdbranch") and term in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "ConditionalOperator", "BinaryOperator", "CXXForRangeStmt", "BinaryConditionalOperator"):
                    c = ("if", inst, cond, idx == 0)
                src.succ.append((first[s].i, c))
        ent.succ.append((first[fn.entry].i, None))
        # exceptional edges: every node lexically inside a try body may reach its handlers
        trys = [(bid, b) for bid, b in fn.cfg.items() if b.get("term") == "CXXTryStmt"]
        for bid, b in trys:
            t = fn.nodes[b["termid"]]
            body = set(fn.walk(t["ch"][0])) if t.get("ch") else set()
            for nd in list(self.nodes[ent.i:]):
                i = nd.inst
                ref = nd.ref
                # find the enclosing statement in this inst
                j, r = i, ref
                if nd.kind != "stmt":
                    continue
                while j is not inst and j is not None:
                    r = j.callnid
                    j = j.caller
                if j is not inst or r not in body:
                    continue
                k = nd.n()["k"]
                if k in CALLS or k == "CXXThrowExpr":
                    nd.succ.append((first[bid].i, ("exc", inst, b["termid"])))
        return ent, ext

    # -------------------------------------------------------------------------------------------- orders
    def rpo(self):
        seen = [False] * len(self.nodes)
        order = []
        st = [(self.entry.i, 0)]
        seen[self.entry.i] = True
        while st:
            u, k = st[-1]
            su = self.nodes[u].succ
            if k < len(su):
                st[-1] = (u, k + 1)
                v = su[k][0]
                if not seen[v]:
                    seen[v] = True
                    st.append((v, 0))
            else:
                order.append(u)
                st.pop()
        order.reverse()
        return order

    def stmts(self):
        r = set(self.rpo())
        for nd in self.nodes:
            if nd.i in r and nd.kind == "stmt":
                yield nd


# ------------------------------------------------------------------------------------------------ conditions
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
SWP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def cmp_atom(op, a, b):
    if op in (">", ">="):
        op, a, b = SWP[op], b, a
    if op in ("==", "!=") and repr(b) < repr(a):
        a, b = b, a
    return (op, a, b)


def atoms(inst, nid, pol, G=None, state=None, depth=0):
    """list of atoms known to hold when expression nid of inst evaluates to pol (conjunctive part only)"""
    if nid is None or nid < 0 or depth > 30:
        return []
    n = inst.fn.nodes[nid]
    k = n["k"]
    if k in CASTS and n.get("ch"):
        return atoms(inst, n["ch"][0], pol, G, state, depth + 1)
    if k == "UnaryOperator" and n["op"] == "!":
        return atoms(inst, n["ch"][0], not pol, G, state, depth + 1)
    if k == "CXXOperatorCallExpr" and n.get("op") == "!" and len(n["ch"]) == 2:
        return atoms(inst, n["ch"][1], not pol, G, state, depth + 1)
    if k == "BinaryOperator" and n["op"] in ("&&", "||"):
        if (n["op"] == "&&") == pol:
            return atoms(inst, n["ch"][0], pol, G, state, depth + 1) + atoms(inst, n["ch"][1], pol, G, state, depth + 1)
        # a disjunction: keep facts common to both arms
        A = atoms(inst, n["ch"][0], pol, G, state, depth + 1)
        B = atoms(inst, n["ch"][0], not pol, G, state, depth + 1) + atoms(inst, n["ch"][1], pol, G, state, depth + 1)
        sb = set(B)
        return [x for x in A if x in sb] + [("or", frozenset(A), frozenset(atoms(inst, n["ch"][1], pol, G, state, depth + 1)))]
    if k == "BinaryOperator" and n["op"] in NEG:
        a, b = n["ch"]
        # comparison of a condition with a boolean constant
        for x, y in ((a, b), (b, a)):
            ny = inst.fn.nodes[y]
            if n["op"] in ("==", "!=") and ny.get("t") == "bool" and "c" in ny and inst.fn.nodes[x].get("t") == "bool":
                return atoms(inst, x, (bool(ny["c"]) == (n["op"] == "==")) == pol, G, state, depth + 1)
        op = n["op"] if pol else NEG[n["op"]]
        out = [cmp_atom(op, val(inst, a), val(inst, b))]
        pa = cmp_atom(op, path(inst, a), path(inst, b))
        if pa not in out:
            out.append(pa)
        return out
    if k == "CXXOperatorCallExpr" and n.get("op") in NEG and len(n["ch"]) == 3:
        a, b = n["ch"][1:]
        op = n["op"] if pol else NEG[n["op"]]
        out = [cmp_atom(op, val(inst, a), val(inst, b))]
        pa = cmp_atom(op, path(inst, a), path(inst, b))
        if pa not in out:
            out.append(pa)
        return out
    if k == "DeclRefExpr" and n.get("dk") in ("local", "parm"):
        out = [("true" if pol else "false", path(inst, nid))]
        owner, info = inst.find_decl(n["d"])
        if owner is not None and n["d"] not in mutated(owner.fn):
            if info is not None and info.get("init", -1) >= 0 and not info.get("static"):
                out += atoms(owner, info["init"], pol, G, state, depth + 1)
            elif n["d"] in owner.bind and owner.bind[n["d"]]:
                ci, cn, _ = owner.bind[n["d"]]
                out += atoms(ci, cn, pol, G, state, depth + 1)
        return out
    out = [("true" if pol else "false", val(inst, nid))]
    p = path(inst, nid)
    if p != out[0][1]:
        out.append(("true" if pol else "false", p))
    if k in CALLS and nid in inst.calls and G is not None and state is not None:
        ci = inst.calls[nid]
        sets = None
        for rn in ci.rets:
            rch = rn.n().get("ch", [])
            if not rch or rch[0] < 0:
                sets = None
                break
            rc = ci.fn.nodes[rch[0]]
            if "c" in rc and bool(rc["c"]) != pol:
                continue
            st = state(rn.i)
            if st is None:
                continue
            s = set(st) | set(atoms(ci, rch[0], pol, G, state, depth + 1))
            sets = s if sets is None else sets & s
        if sets:
            out += list(sets)
    if k == "ConditionalOperator":
        c, a, b = n["ch"][:3]
        na, nb = inst.fn.nodes[a], inst.fn.nodes[b]
        if "c" in nb and bool(nb["c"]) != pol:
            out += atoms(inst, c, True, G, state, depth + 1) + atoms(inst, a, pol, G, state, depth + 1)
        if "c" in na and bool(na["c"]) != pol:
            out += atoms(inst, c, False, G, state, depth + 1) + atoms(inst, b, pol, G, state, depth + 1)
    return out


def edge_atoms(cond, G=None, state=None):
    if cond is None:
        return []
    if cond[0] == "if":
        return atoms(cond[1], cond[2], cond[3], G, state)
    if cond[0] == "case" and cond[3] is not None:
        return [cmp_atom("==", val(cond[1], cond[2]), ("c", cond[3])), cmp_atom("==", path(cond[1], cond[2]), ("c", cond[3]))]
    return []


def lhs_written(inst, nid):
    """access paths written by node nid itself (assignment, ++/--, mutating call on an object, out-parameters)"""
    n = inst.fn.nodes[nid]
    k = n["k"]
    out = []
    if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
        out.append(path(inst, n["ch"][0]))
    elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
        out.append(path(inst, n["ch"][0]))
    elif k == "CXXOperatorCallExpr" and (n.get("op") in ASSIGN or n.get("op") in ("++", "--")) and len(n["ch"]) > 1:
        out.append(path(inst, n["ch"][1]))
    elif k == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["ch"]) > 2:
        out.append(path(inst, n["ch"][2]))
    elif k in CALLS:
        obj, args = callee_args(n)
        if k == "CXXMemberCallExpr" and not n.get("mconst") and nid not in inst.calls:
            m = inst.fn.nodes[obj[1]]
            if m["k"] == "MemberExpr":
                b = path(inst, m["ch"][0]) if m.get("ch") else ("&", ("this",))
                out.append(deref(b) if m.get("arrow") else b)
        if nid not in inst.calls:
            for a, t in zip(args, n.get("pt", [])):
                if (t.endswith("&") and not t.endswith("&&") and not t.startswith("const ")) and not t.startswith("const"):
                    out.append(path(inst, a))
                elif t.endswith("*") and not t.startswith("const "):
                    p = path(inst, a)
                    if p[0] == "&":
                        out.append(p[1])
    return out


NONKILL = {"begin", "end", "data", "ptr", "at", "operator[]", "size", "getMat", "getMatRef", "find", "front", "back", "get", "type", "kind", "operator()"}


class MustFacts:
    """forward must-analysis of condition atoms; facts die when a path they mention is written"""

    def __init__(self, G, extra=None):
        self.G = G
        order = G.rpo()
        pos = {u: i for i, u in enumerate(order)}
        self.IN = {}
        self.OUT = {}
        self.extra = extra
        kills = {}
        for u in order:
            nd = G.nodes[u]
            if nd.kind == "stmt":
                n = nd.n()
                nm = last(n.get("fn", "")) if n["k"] in CALLS else ""
                if n["k"] == "CXXMemberCallExpr" and nm in NONKILL:
                    continue
                w = [p for p in lhs_written(nd.inst, nd.ref) if p[0] not in ("?", "c")]
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        w.append(("L", nd.inst.id, d["id"], d["name"]))
                if w:
                    kills[u] = w
        self.kills = kills
        changed = True
        rounds = 0
        get = lambda i: self.OUT.get(i)
        while changed and rounds < 40:
            changed = False
            rounds += 1
            for u in order:
                if u == G.entry.i:
                    s = frozenset()
                else:
                    s = None
                    for p, c in G.nodes[u].pred:
                        o = self.OUT.get(p)
                        if o is None:
                            continue
                        if c is not None:
                            o = o | frozenset(edge_atoms(c, G, get))
                        s = o if s is None else s & o
                    if s is None:
                        continue
                o = s
                if u in kills:
                    w = kills[u]
                    o = frozenset(f for f in s if not any(sub(f, p) for p in w))
                if extra:
                    o = extra(G.nodes[u], o)
                if self.IN.get(u) != s or self.OUT.get(u) != o:
                    self.IN[u], self.OUT[u] = s, o
                    changed = True

    def at(self, u):
        return self.IN.get(u, frozenset())
