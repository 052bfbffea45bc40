"""D02: the packet handed out for index i is what the loader callback returns for i (precaching, memoisation, restarts)."""
from .flow import (Graph, Inst, MustFacts, path, val, last, callee_args, deref, sub, mutated, lhs_written, CALLS, CASTS, CTORS)
from .zone import Zone, ZERO

INTS = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "unsigned char"}
MAT = "cv::Mat"


def bare(t):
    t = (t or "").strip()
    if t.startswith("const "):
        t = t[6:]
    t = t.rstrip("&* ").strip()
    if t.startswith("std::atomic<"):
        t = t[12:].rstrip(">").strip()
    if t.startswith("std::__atomic_base<"):
        t = t[len("std::__atomic_base<"):].rstrip(">").strip()
    return t


def kind_of(t):
    b = bare(t)
    if b in INTS:
        return "int"
    if b == "bool":
        return "bool"
    if "exception_ptr" in b:
        return "exc"
    if b == MAT:
        return "mat"
    if b.startswith(("std::list<cv::Mat", "std::deque<cv::Mat", "std::queue<cv::Mat", "std::vector<cv::Mat")):
        return "list"
    return None


def signed(c):
    return c - (1 << 64) if c >= (1 << 63) else c


def g(p):
    return ("g", p)


def lo(p):
    return ("lo", p)


def hi(p):
    return ("hi", p)


class Interp:
    """forward analysis of a graph with partitioned zones; hooks: callback(field path test), wait, at(node, state)"""

    def __init__(self, G, iscallback, entry, onwait=None, visit=None, limit=160, mem=None, track=()):
        self.G = G
        self.mem = mem                # the ring buffer of the worker (see ring), or None
        self.track = list(track)      # (x, y, c): states in which the order of x and y + c differs are kept apart
        self.iscallback = iscallback
        self.onwait = onwait          # (states) -> states : effect of releasing the lock
        self.visit = visit            # (node, state before) -> None, on the fixpoint
        self.limit = limit
        self.zvars = set()
        self.lost = []
        self.IN = {}
        self.live = self._liveness()
        self.entry = entry
        self.run()

    # ---------------------------------------------------------------------------------- expressions
    def lin(self, inst, nid, depth=0):
        """(var or None-for-constant, const) of an integer expression, or None"""
        t = self.terms(inst, nid, depth)
        if t is None:
            return None
        co, c = t
        if not co:
            return ZERO, c
        if len(co) == 1:
            (v, k), = co.items()
            if k == 1:
                return v, c
        if self.mem and len(co) == 2 and all(k == 1 for k in co.values()):
            return ("sum", tuple(sorted(co, key=repr))), c
        return None

    def terms(self, inst, nid, depth=0):
        if nid is None or nid < 0 or depth > 25:
            return None
        n = inst.fn.nodes[nid]
        k = n["k"]
        if "c" in n and k not in ("DeclRefExpr",) and isinstance(n["c"], int):
            return {}, signed(n["c"])
        if k in CASTS or k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            return self.terms(inst, n["ch"][0], depth + 1) if n.get("ch") else None
        if k == "BinaryOperator" and n["op"] in ("+", "-"):
            a, b = self.terms(inst, n["ch"][0], depth + 1), self.terms(inst, n["ch"][1], depth + 1)
            if a is None or b is None:
                return None
            s = 1 if n["op"] == "+" else -1
            co = dict(a[0])
            for v, c in b[0].items():
                co[v] = co.get(v, 0) + s * c
                if co[v] == 0:
                    del co[v]
            return co, a[1] + s * b[1]
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"] in ("=", "+=", "-="):
            return self.terms(inst, n["ch"][0], depth + 1)
        if k == "BinaryOperator" and n["op"] == ",":
            return self.terms(inst, n["ch"][1], depth + 1)
        if k == "CXXOperatorCallExpr" and n.get("op") in ("=", "+=", "-=", "++", "--") and len(n["ch"]) > 1:
            t = self.terms(inst, n["ch"][1], depth + 1)
            if t and n["op"] in ("++", "--") and len(n["ch"]) > 2:
                return t[0], t[1] + (-1 if n["op"] == "++" else 1)
            return t
        if k == "UnaryOperator" and n["op"] in ("++", "--"):
            return self.terms(inst, n["ch"][0], depth + 1)
        if k == "UnaryOperator" and n["op"] in ("post++", "post--"):
            t = self.terms(inst, n["ch"][0], depth + 1)
            return (t[0], t[1] + (-1 if n["op"] == "post++" else 1)) if t else None
        if k in CALLS and nid in inst.calls:
            ci = inst.calls[nid]
            return {("ret", ci.id): 1}, 0
        p = path(inst, nid)
        if p[0] == "c" and isinstance(p[1], int):
            return {}, signed(p[1])
        if p[0] in ("L", "P", "M", "G"):
            if k in CALLS and kind_of(n.get("t")) != "int":
                return None
            if k in ("DeclRefExpr", "MemberExpr") and kind_of(n.get("t")) != "int":
                return None
            return {p: 1}, 0
        if p[0] == "call" and last(p[1]) == "size" and len(p) == 3 and kind_of(p[1].rsplit("::", 1)[0]) == "list":
            return {hi(p[2]): 1, lo(p[2]): -1}, 0
        return None

    def mat(self, inst, nid, depth=0):
        """(var, const) denoting the index whose packet a matrix expression holds"""
        if nid is None or nid < 0 or depth > 25:
            return None
        n = inst.fn.nodes[nid]
        k = n["k"]
        if k in CASTS or k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            return self.mat(inst, n["ch"][0], depth + 1) if n.get("ch") else None
        if k == "CXXOperatorCallExpr" and n.get("op") == "=":
            return self.mat(inst, n["ch"][1], depth + 1)
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and nid not in inst.calls:
            if self.iscallback(path(inst, n["ch"][1])) and len(n["ch"]) == 3:
                return self.lin(inst, n["ch"][2])
            return None
        if k in CALLS and nid in inst.calls:
            return g(("ret", inst.calls[nid].id)), 0
        if k in CTORS:
            if n.get("cpmv") and n["ch"]:
                return self.mat(inst, n["ch"][0], depth + 1)
            if not n.get("ch"):
                return ZERO, -1
            return None
        if k == "CXXMemberCallExpr":
            nm = last(n.get("fn", ""))
            obj, args = callee_args(n)
            m = inst.fn.nodes[obj[1]]
            base = m["ch"][0] if m["k"] == "MemberExpr" and m.get("ch") else None
            if base is None:
                return None
            if nm == "clone":
                return self.mat(inst, base, depth + 1)
            bt = kind_of(inst.fn.nodes[base].get("t"))
            if bt == "list" and nm == "front":
                return lo(path(inst, base)), 0
            if bt == "list" and nm == "back":
                return hi(path(inst, base)), -1
            if nm in ("call", "operator()") and self.iscallback(path(inst, base)) and args:
                return self.lin(inst, args[0])
            return None
        if k == "CallExpr" and last(n.get("fn", "")) in ("move", "forward") and len(n["ch"]) == 2:
            return self.mat(inst, n["ch"][1], depth + 1)
        p = path(inst, nid)
        if p[0] in ("L", "P", "M") and kind_of(n.get("t")) == "mat":
            return g(p), 0
        if p[0] == "call" and last(p[1]) == "front" and len(p) == 3:
            return lo(p[2]), 0
        return None

    # ---------------------------------------------------------------------------------- conditions
    def assume(self, st, inst, nid, pol, depth=0):
        """list of states in which the expression evaluates to pol"""
        if nid is None or nid < 0 or depth > 25:
            return [st]
        n = inst.fn.nodes[nid]
        k = n["k"]
        if "c" in n and isinstance(n["c"], (int, bool)):
            return [st] if bool(n["c"]) == pol else []
        if k in CASTS or k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            if not n.get("ch"):
                return [st]
            sub_ = inst.fn.nodes[n["ch"][0]]
            if bare(n.get("t")) == "bool" and kind_of(sub_.get("t")) == "int":
                t = self.terms(inst, n["ch"][0])
                return self._cmp(st, t, "!=" if pol else "==", ({}, 0), True) if t else [st]
            return self.assume(st, inst, n["ch"][0], pol, depth + 1)
        if k == "UnaryOperator" and n["op"] == "!":
            return self.assume(st, inst, n["ch"][0], not pol, depth + 1)
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            a, b = n["ch"]
            if (n["op"] == "&&") == pol:
                return [y for x in self.assume(st, inst, a, pol, depth + 1) for y in self.assume(x, inst, b, pol, depth + 1)]
            one = self.assume(st, inst, a, pol, depth + 1)
            two = [y for x in self.assume(st, inst, a, not pol, depth + 1) for y in self.assume(x, inst, b, pol, depth + 1)]
            return one + two
        if (k == "BinaryOperator" and n["op"] in ("==", "!=", "<", ">", "<=", ">=")) or \
                (k == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(n["ch"]) == 3):
            a, b = n["ch"] if k == "BinaryOperator" else n["ch"][1:]
            na, nb = inst.fn.nodes[a], inst.fn.nodes[b]
            op = n["op"]
            for x, y in ((a, b), (b, a)):
                nx, ny = inst.fn.nodes[x], inst.fn.nodes[y]
                if op in ("==", "!=") and bare(nx.get("t")) == "bool" and "c" in ny:
                    return self.assume(st, inst, x, (bool(ny["c"]) == (op == "==")) == pol, depth + 1)
                if op in ("==", "!=") and kind_of(nx.get("t")) == "exc" and kind_of(path(inst, y)[0]) is None:
                    py = path(inst, y)
                    if py == ("c", 0) or py[0] == "new":
                        return self._flag(st, path(inst, x), (op == "!=") == pol)
            ta, tb = self.terms(inst, a), self.terms(inst, b)
            if ta is None or tb is None:
                return [st]
            if not pol:
                op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            uns = bare(na.get("t")).startswith("unsigned") or bare(nb.get("t")).startswith("unsigned")
            return self._cmp(st, ta, op, tb, uns)
        if k == "CXXMemberCallExpr" and nid not in inst.calls:
            nm = last(n.get("fn", ""))
            obj, args = callee_args(n)
            m = inst.fn.nodes[obj[1]]
            base = m["ch"][0] if m["k"] == "MemberExpr" and m.get("ch") else None
            if base is not None and nm == "empty" and kind_of(inst.fn.nodes[base].get("t")) == "list":
                p = path(inst, base)
                e = st.flags.get(("empty", p))
                if e is not None and e != pol:
                    return []
                if e is not None:
                    return [st]
                z = st.copy()
                if pol:
                    z.eq(lo(p), hi(p), 0)
                    z.flags[("empty", p)] = True
                else:
                    z.flags[("empty", p)] = False
                    z.le(lo(p), hi(p), -1)
                return [] if z.dead else [z]
            if nm.startswith("wait"):
                return self._flag(st, ("wret", inst.id, nid), pol)
        if k in CALLS and nid in inst.calls:
            return self._flag(st, ("ret", inst.calls[nid].id), pol)
        p = path(inst, nid)
        if p[0] in ("L", "P", "M"):
            kk = kind_of(n.get("t"))
            if kk in ("bool", "exc") or (k in CALLS and bare(n.get("t")) == "bool"):
                return self._flag(st, p, pol)
        return [st]

    def _flag(self, st, p, pol):
        f = st.flags.get(p)
        if f is not None:
            return [st] if f == pol else []
        z = st.copy()
        z.flags[p] = pol
        return [z]

    def _cmp(self, st, ta, op, tb, uns):
        co = dict(ta[0])
        for v, c in tb[0].items():
            co[v] = co.get(v, 0) - c
            if co[v] == 0:
                del co[v]
        c = ta[1] - tb[1]        # sum(co) + c  OP  0
        simple = (self.mem is not None or len(ta[0]) <= 1 and len(tb[0]) <= 1) and all(k == 1 for k in list(ta[0].values()) + list(tb[0].values()))
        simple = simple or len(ta[0]) <= 1 and len(tb[0]) <= 1 and all(k == 1 for k in list(ta[0].values()) + list(tb[0].values()))
        if uns and not simple:
            # unsigned arithmetic: an inner difference compared with a constant only tells zero from non-zero
            if not tb[0] and op in (">", "<=") and tb[1] == 0:
                op = "!=" if op == ">" else "=="
            elif not tb[0] and op in (">=", "<") and tb[1] == 1:
                op, c = ("!=" if op == ">=" else "=="), ta[1]
            elif not ta[0] and op in ("<", ">=") and ta[1] == 0:
                op = "!=" if op == "<" else "=="
            elif not ta[0] and op in ("<=", ">") and ta[1] == 1:
                op, c = ("!=" if op == "<=" else "=="), -tb[1]
            if op not in ("==", "!="):
                if not (self.mem and self.nowrap(st, ta) and self.nowrap(st, tb)):
                    return [st]
        elif uns and op in (">", "<", "<=", ">="):
            if not tb[0] and tb[1] == 0 and op in (">", "<="):
                op = "!=" if op == ">" else "=="
            elif not tb[0] and tb[1] < 0 or not ta[0] and ta[1] < 0:
                return [st]
        pos = [v for v, k in co.items() if k == 1]
        neg = [v for v, k in co.items() if k == -1]
        if self.mem and len(pos) + len(neg) == len(co):
            if len(pos) == 2:
                pos = [("sum", tuple(sorted(pos, key=repr)))]
                co = {**{v: 1 for v in pos}, **{v: -1 for v in neg}}
            if len(neg) == 2:
                neg = [("sum", tuple(sorted(neg, key=repr)))]
                co = {**{v: 1 for v in pos}, **{v: -1 for v in neg}}
        if len(pos) + len(neg) != len(co) or len(pos) > 1 or len(neg) > 1:
            return [st]
        x = pos[0] if pos else ZERO
        y = neg[0] if neg else ZERO
        z = st.copy()
        for v in (x, y):
            self.sumfacts(z, v)
        # x - y + c OP 0
        if op == "==":
            z.eq(x, y, -c)
        elif op == "!=":
            z.ne(x, y, -c)
        elif op == "<":
            z.le(x, y, -c - 1)
        elif op == "<=":
            z.le(x, y, -c)
        elif op == ">":
            z.le(y, x, c - 1)
        elif op == ">=":
            z.le(y, x, c)
        return [] if z.dead else [z]

    def sumfacts(self, z, v):
        if v[0] == "sum":
            a, b = v[1]
            if z.up(ZERO, a) <= 0:
                z.le(b, v, 0)
            if z.up(ZERO, b) <= 0:
                z.le(a, v, 0)

    def nowrap(self, st, t):
        """an unsigned sum of variables minus at most one that is known not to be larger"""
        pos = [v for v, k in t[0].items() if k == 1]
        neg = [v for v, k in t[0].items() if k == -1]
        if len(pos) + len(neg) != len(t[0]) or t[1] < 0:
            return False
        return not neg or len(pos) == 1 and len(neg) == 1 and st.up(neg[0], pos[0]) <= 0

    # ---------------------------------------------------------------------------------- statements
    def set_int(self, z, p, lf, size=False):
        if lf is None:
            z.assign(p, None, 0)
            if size:
                z.le(ZERO, p, 0)
        else:
            if lf[0][0] == "ret" or lf[0] in self.zvars:
                self.zvars.add(p)
            z.assign(p, lf[0], lf[1])

    def set_bool(self, z, p, inst, nid):
        """split on the value of a boolean expression"""
        z.flags.pop(p, None)
        n = inst.fn.nodes[nid]
        out = []
        for pol in (True, False):
            for s in self.assume(z, inst, nid, pol):
                s = s.copy()
                s.flags[p] = pol
                out.append(s)
        return out

    def assign(self, st, p, kd, inst, nid):
        q = nid
        while q is not None and q >= 0 and (inst.fn.nodes[q]["k"] in CASTS or inst.fn.nodes[q]["k"] in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") or inst.fn.nodes[q]["k"] in CTORS and inst.fn.nodes[q].get("cpmv")) and inst.fn.nodes[q].get("ch"):
            q = inst.fn.nodes[q]["ch"][0]
        if q is not None and q >= 0 and inst.fn.nodes[q]["k"] == "ConditionalOperator" and kd != "list":
            c, a, b = inst.fn.nodes[q]["ch"][:3]
            return [y for pol, e in ((True, a), (False, b)) for x in self.assume(st, inst, c, pol) for y in self.assign(x, p, kd, inst, e)]
        z = st.copy()
        if kd == "int":
            if self.mem and p == self.mem["F"]:
                r = self.ring_first(z, inst, nid)
                if r is not None:
                    return r
                z.flags.pop(("fptr",), None)
            lf = self.lin(inst, nid)
            if lf is not None and lf[0][0] == "sum":
                self.sumfacts(z, lf[0])
            v = path(inst, nid)
            self.set_int(z, p, lf, v[0] == "b*" and all("cv::Mat::" in str(x[1]) for x in v[1:] if x[0] == "call") and any(x[0] == "call" for x in v[1:]))
            return [z]
        if kd == "bool":
            return self.set_bool(z, p, inst, nid)
        if kd == "exc":
            z.flags.pop(p, None)
            v = path(inst, nid)
            if v == ("c", 0) or (v[0] == "new" and (not v[2] or v[2] == (("c", 0),))):
                z.flags[p] = False
            elif v[0] == "call" and last(v[1]) in ("current_exception", "make_exception_ptr"):
                z.flags[p] = True
            elif z.flags.get(v) is not None:
                z.flags[p] = z.flags[v]
            return [z]
        if kd == "mat":
            lf = self.mat(inst, nid)
            if self.mem:
                ib = self.inbuf(z, inst, nid)
                z.flags.pop(("inbuf", p), None)
                if ib is not None:
                    z.flags[("inbuf", p)] = ib
            if lf is None:
                z.assign(g(p), None, 0)
            else:
                z.assign(g(p), lf[0], lf[1])
            return [z]
        if kd == "list":
            v = path(inst, nid)
            for x in (lo(p), hi(p)):
                z.assign(x, None, 0)
            z.flags.pop(("empty", p), None)
            n = inst.fn.nodes[nid]
            if v[0] == "new" and not v[2] or n["k"] == "InitListExpr" and not n.get("ch"):
                self.make_empty(z, p)
            elif v[0] in ("L", "P", "M"):
                z.assign(lo(p), lo(v), 0)
                z.assign(hi(p), hi(v), 0)
                if ("empty", v) in z.flags:
                    z.flags[("empty", p)] = z.flags[("empty", v)]
            else:
                self.lost.append((inst.where(nid), "container assigned from an expression that is not understood"))
            return [z]
        return [z]

    def make_empty(self, z, p):
        z.assign(lo(p), None, 0)
        z.assign(hi(p), None, 0)
        z.eq(hi(p), lo(p), 0)
        z.flags[("empty", p)] = True

    def push(self, st, p, lf):
        z = st.copy()
        if z.flags.get(("empty", p)):
            if lf is None:
                z.assign(lo(p), None, 0)
            else:
                z.assign(lo(p), lf[0], lf[1])
            z.assign(hi(p), lo(p), 1)
        else:
            z.assign(hi(p), hi(p), 1)
        z.flags[("empty", p)] = False
        return [z]

    def pop(self, st, p):
        z = st.copy()
        z.assign(lo(p), lo(p), 1)
        z.flags.pop(("empty", p), None)
        if z.iseq(lo(p), hi(p), 0):
            z.flags[("empty", p)] = True
        return [z]

    def object_of(self, inst, n):
        obj, args = callee_args(n)
        if not obj:
            return None, args, None
        m = inst.fn.nodes[obj[1]]
        if obj[0] == "member" and m["k"] == "MemberExpr":
            base = m["ch"][0] if m.get("ch") else None
            if base is None:
                return ("this",), args, None
            p = path(inst, base)
            return (deref(p) if m.get("arrow") else p), args, inst.fn.nodes[base].get("t")
        return path(inst, obj[1]), args, m.get("t")

    def step(self, nd, st):
        """states after the node"""
        inst = nd.inst
        if nd.kind == "enter":
            if inst.caller is None:
                return [st]
            z = st.copy()
            z.assign(("ret", inst.id), None, 0)
            z.assign(g(("ret", inst.id)), None, 0)
            z.flags.pop(("ret", inst.id), None)
            out = [z]
            for prm in inst.fn.params:
                b = inst.bind.get(prm["id"])
                if not b or b[2]:
                    continue
                kd = kind_of(prm["t"])
                p = ("L", inst.id, prm["id"], prm["name"])
                if kd:
                    out = [y for x in out for y in self.assign(x, p, kd, b[0], b[1])]
            return out
        if nd.kind == "exit" and inst.caller is not None:
            z = st.copy()
            for x in [v for v in z.d if self._local(v, inst.id)]:
                z.forget(x)
            for f in [f for f in z.flags if self._local(f, inst.id)]:
                del z.flags[f]
            return [z]
        if nd.kind != "stmt":
            return [st]
        n = nd.n()
        k = n["k"]
        nid = nd.ref
        if k == "DeclStmt":
            out = [st]
            for d in n["decls"]:
                if d.get("ref"):
                    continue
                kd = kind_of(d.get("t"))
                p = ("L", inst.id, d["id"], d["name"])
                if not kd:
                    continue
                if d.get("init", -1) >= 0:
                    out = [y for x in out for y in self.assign(x, p, kd, inst, d["init"])]
                else:
                    z2 = []
                    for x in out:
                        z = x.copy()
                        if kd == "mat":
                            z.assign(g(p), ZERO, -1)
                        elif kd == "list":
                            self.make_empty(z, p)
                        elif kd == "int":
                            z.assign(p, None, 0)
                        else:
                            z.flags.pop(p, None)
                        z2.append(z)
                    out = z2
            return out
        if k == "ReturnStmt":
            if inst.caller is None or not n.get("ch") or n["ch"][0] < 0:
                return [st]
            kd = kind_of(inst.fn.rt)
            if kd is None and inst.fn.kind == "lambda":
                kd = kind_of(inst.fn.nodes[n["ch"][0]].get("t"))
            p = ("ret", inst.id)
            if kd == "int":
                self.zvars.add(p)
            return self.assign(st, p, kd, inst, n["ch"][0]) if kd else [st]
        if k == "BinaryOperator" and n["op"] == "=" or (k == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["ch"]) == 3):
            a, b = n["ch"][-2:]
            p = path(inst, a)
            kd = kind_of(inst.fn.nodes[a].get("t"))
            if kd is None and p[0] in ("L", "P", "M"):
                return [st]
            return self.assign(st, p, kd, inst, b) if p[0] in ("L", "P", "M") else [st]
        if k == "CompoundAssignOperator" or (k == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-=")):
            a, b = n["ch"][-2:]
            p = path(inst, a)
            z = st.copy()
            if kind_of(inst.fn.nodes[a].get("t")) == "int":
                lf = self.lin(inst, b)
                if self.mem and p == self.mem["F"]:
                    z.flags.pop(("fptr",), None)
                if self.mem and lf is not None and lf[0] != ZERO and lf[1] == 0 and n["op"] == "+=" and lf[0][0] != "sum":
                    v = ("sum", tuple(sorted((p, lf[0]), key=repr)))
                    self.sumfacts(z, v)
                    z.assign(p, v, 0)
                elif lf is not None and lf[0] == ZERO and n["op"] in ("+=", "-="):
                    z.assign(p, p, lf[1] if n["op"] == "+=" else -lf[1])
                else:
                    z.assign(p, None, 0)
            elif kind_of(inst.fn.nodes[a].get("t")) == "bool":
                z.flags.pop(p, None)
            return [z]
        if (k == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--")) or (k == "CXXOperatorCallExpr" and n.get("op") in ("++", "--") and len(n["ch"]) > 1):
            a = n["ch"][0] if k == "UnaryOperator" else n["ch"][1]
            if kind_of(inst.fn.nodes[a].get("t")) == "int":
                z = st.copy()
                z.assign(path(inst, a), path(inst, a), 1 if "++" in n["op"] else -1)
                return [z]
            return [st]
        if k == "CXXMemberCallExpr" and nid not in inst.calls:
            nm = last(n.get("fn", ""))
            p, args, bt = self.object_of(inst, n)
            kd = kind_of(bt)
            if bt and "condition_variable" in bt and nm.startswith("wait"):
                return self.wait(st, inst, nid, nm, args)
            if kd in ("int", "bool") and nm == "store" and args:
                return self.assign(st, p, kd, inst, args[0])
            if kd in ("int", "bool") and nm == "exchange" and args:
                return self.assign(st, p, kd, inst, args[0])
            if kd == "list":
                if nm in ("push_back", "emplace_back", "push", "emplace"):
                    return self.push(st, p, self.mat(inst, args[0]) if len(args) == 1 else None)
                if nm in ("pop_front", "pop"):
                    return self.pop(st, p)
                if nm == "erase" and len(args) == 1 and sub(path(inst, args[0]), ("call", n["fn"].rsplit("::", 1)[0] + "::begin", p)):
                    return self.pop(st, p)
                if nm == "clear":
                    z = st.copy()
                    self.make_empty(z, p)
                    return [z]
                if nm == "swap" and args and kind_of(inst.fn.nodes[args[0]].get("t")) == "list":
                    o = path(inst, args[0])
                    z = st.copy()
                    tmp = [("swp", 0), ("swp", 1)]
                    z.assign(tmp[0], lo(p), 0)
                    z.assign(tmp[1], hi(p), 0)
                    z.assign(lo(p), lo(o), 0)
                    z.assign(hi(p), hi(o), 0)
                    z.assign(lo(o), tmp[0], 0)
                    z.assign(hi(o), tmp[1], 0)
                    fp, fo = z.flags.pop(("empty", p), None), z.flags.pop(("empty", o), None)
                    if fo is not None:
                        z.flags[("empty", p)] = fo
                    if fp is not None:
                        z.flags[("empty", o)] = fp
                    for t in tmp:
                        z.forget(t)
                    return [z]
                if not n.get("mconst") and nm not in ("front", "back", "begin", "end", "reserve", "at", "operator[]"):
                    self.lost.append((inst.where(nid), "container changed by %s, which is not modelled" % nm))
                return [st]
            if kd == "mat":
                if nm == "copyTo" and args:
                    z = st.copy()
                    src = g(p)
                    o = self.outarg(inst, args[0])
                    if o is not None and len(args) == 1:
                        z.assign(g(o), src, 0)
                    elif o is not None:
                        z.assign(g(o), None, 0)
                    return [z]
                if nm == "release":
                    z = st.copy()
                    z.assign(g(p), ZERO, -1)
                    return [z]
                if not n.get("mconst") and nm in ("create", "setTo", "push_back", "resize", "pop_back", "addref", "operator="):
                    z = st.copy()
                    z.assign(g(p), None, 0)
                    return [z]
                return [st]
        if self.mem and k in CTORS and nid in self.mem["headers"].get(inst.id, {}):
            z = st.copy()
            off, S = self.mem["headers"][inst.id][nid]
            if off is None:
                z.assign(("end",), S, 0)
            else:
                v = ("sum", tuple(sorted((off, S), key=repr)))
                self.sumfacts(z, v)
                z.assign(("end",), v, 0)
            if z.iseq(self.mem["F"], ZERO, -1):
                z.assign(("start",), off or ZERO, 0)
            return [z]
        if k in CALLS and nid not in inst.calls and k != "CXXOperatorCallExpr":
            out = st
            for p in lhs_written(inst, nid):
                if p in out.d or g(p) in out.d or p in out.flags:
                    out = out.copy()
                    out.forget(p)
                    out.forget(g(p))
                    out.flags.pop(p, None)
            # cv::Mat passed as OutputArray to a plain function
            obj, args = callee_args(n)
            for a, t in zip(args, n.get("pt", [])):
                if "_OutputArray" in t or "_InputOutputArray" in t:
                    o = self.outarg(inst, a)
                    if o is not None and g(o) in out.d:
                        out = out.copy()
                        out.forget(g(o))
            return [out]
        return [st]

    def ring_first(self, z, inst, nid):
        """F := where a stored packet starts (None: some other value)"""
        m = self.mem["offset_of"](path(inst, nid))
        if m is None:
            return None
        lf = self.mem["packet"](self, inst, nid)
        F, X, N = self.mem["F"], self.mem["X"], self.mem["N"]
        ib = self.inbuf_path(z, m)
        was = z.isne(F, ZERO, -1) and z.up(F, X) <= -1
        z.assign(F, None, 0)
        if lf is None:
            z.forget(("fi",))
        else:
            z.assign(("fi",), lf[0], lf[1])
        z.le(ZERO, F, 0)
        z.flags[("fptr",)] = True
        a = z.copy().le(F, X, -1)
        b = z.copy().le(X, F, 0)
        if N is not None:
            b.le(F, N, -1)
        return [s for s in ([a] if was else [a, b]) if not s.dead]

    def inbuf_path(self, z, m):
        return z.flags.get(("inbuf", m))

    def inbuf(self, z, inst, nid, depth=0):
        """does a matrix expression refer to memory of the ring buffer"""
        n = inst.fn.nodes[nid]
        k = n["k"]
        if depth > 20:
            return None
        if k in CASTS or k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
            return self.inbuf(z, inst, n["ch"][0], depth + 1) if n.get("ch") else None
        if k == "CXXOperatorCallExpr" and n.get("op") == "=":
            return self.inbuf(z, inst, n["ch"][1], depth + 1)
        if k == "CXXOperatorCallExpr" and n.get("op") == "()" and self.iscallback(path(inst, n["ch"][1])):
            return False
        if k in CTORS:
            if nid in self.mem["headers"].get(inst.id, {}):
                return True
            if n.get("cpmv") and n["ch"]:
                return self.inbuf(z, inst, n["ch"][0], depth + 1)
            return False if not n.get("ch") else None
        if k == "CXXMemberCallExpr":
            nm = last(n.get("fn", ""))
            if nm == "clone":
                return False
            if nm in ("front", "back"):
                return True
            return None
        if k == "CallExpr" and last(n.get("fn", "")) in ("move", "forward") and len(n["ch"]) == 2:
            return self.inbuf(z, inst, n["ch"][1], depth + 1)
        p = path(inst, nid)
        if p[0] == "call" and last(p[1]) == "front":
            return True
        return z.flags.get(("inbuf", p))

    def outarg(self, inst, nid):
        p = path(inst, nid)
        while p[0] == "new" and p[2]:
            p = p[2][0]
        return p if p[0] in ("L", "P", "M") else None

    def wait(self, st, inst, nid, nm, args):
        pred = None
        if (nm == "wait" and len(args) == 2) or (nm != "wait" and len(args) == 3):
            lam = self.G._lambda_of(inst, args[-1])
            if lam:
                f, env = lam
                rets = [i for i in f.walk() if f.nodes[i]["k"] == "ReturnStmt"]
                if len(rets) == 1:
                    ni = Inst(f, defenv=env, caller=inst, callnid=nid, depth=inst.depth + 1, dyn=inst.dyn)
                    pred = (ni, f.nodes[rets[0]]["ch"][0])
        key = ("wret", inst.id, nid)
        out = []

        def emit(s, v):
            s = s.copy()
            s.flags.pop(key, None)
            if v is not None:
                s.flags[key] = v
            out.append(s)
        haspred = (nm == "wait" and len(args) == 2) or (nm != "wait" and len(args) == 3)
        if not haspred:
            for s in self.onwait([st]):
                emit(s, None)
            return out
        if pred is None:
            for s in [st] + self.onwait([st]):
                emit(s, None)
            return out
        for s in self.assume(st, pred[0], pred[1], True):
            emit(s, True)
        blocked = self.assume(st, pred[0], pred[1], False)
        for s in self.onwait(blocked):
            for t in self.assume(s, pred[0], pred[1], True):
                emit(t, True)
            if nm != "wait":
                for t in self.assume(s, pred[0], pred[1], False):
                    emit(t, False)
        return out

    @staticmethod
    def _local(v, iid):
        if v[0] == "sum":
            return any(Interp._local(x, iid) for x in v[1])
        while v and v[0] in ("g", "lo", "hi", "empty", "inbuf"):
            v = v[1]
        return v and v[0] in ("L", "P") and v[1] == iid

    # ---------------------------------------------------------------------------------- fixpoint
    def _liveness(self):
        """for flags and return values: nodes from which they may still be tested"""
        G = self.G
        uses = {}

        def add(key, u):
            uses.setdefault(key, set()).add(u)

        def scan(inst, nid, u):
            for i in inst.fn.walk(nid):
                n = inst.fn.nodes[i]
                if n["k"] in CALLS and i in inst.calls:
                    add(("ret", inst.calls[i].id), u)
                if n["k"] in CALLS and last(n.get("fn", "")).startswith("wait"):
                    add(("wret", inst.id, i), u)
                if n["k"] in ("DeclRefExpr", "MemberExpr"):
                    p = path(inst, i)
                    if p[0] in ("L", "P", "M"):
                        add(p, u)
        kills = {}
        for nd in G.nodes:
            for s, c in nd.succ:
                if c and c[0] == "if":
                    scan(c[1], c[2], nd.i)
            if nd.kind == "stmt":
                n = nd.n()
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if d.get("init", -1) >= 0:
                            scan(nd.inst, d["init"], nd.i)
                        kills.setdefault(("L", nd.inst.id, d["id"], d["name"]), set()).add(nd.i)
                elif n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "=" and len(n["ch"]) >= 2:
                    scan(nd.inst, n["ch"][-1], nd.i)
                    kills.setdefault(path(nd.inst, n["ch"][-2]), set()).add(nd.i)
                elif n["k"] in ("ReturnStmt", "CXXThrowExpr") and n.get("ch"):
                    scan(nd.inst, n["ch"][0], nd.i)
                elif n["k"] in CALLS:
                    for a in callee_args(n)[1]:
                        if nd.ref in nd.inst.calls or last(n.get("fn", "")).startswith("wait"):
                            scan(nd.inst, a, nd.i)
                            lam = self.G._lambda_of(nd.inst, a)
                            if lam:
                                ni = Inst(lam[0], defenv=lam[1], caller=nd.inst, callnid=nd.ref, depth=nd.inst.depth + 1, dyn=nd.inst.dyn)
                                scan(ni, lam[0].body, nd.i)
            if nd.kind == "enter":
                kills.setdefault(("ret", nd.inst.id), set()).add(nd.i)
        live = {}
        for key, us in uses.items():
            seen = set(us)
            wl = list(us)
            kl = kills.get(key, set())
            while wl:
                u = wl.pop()
                if u in kl and u not in us:
                    continue
                for p, _ in G.nodes[u].pred:
                    if p not in seen:
                        seen.add(p)
                        if p not in kl:
                            wl.append(p)
            live[key] = seen
        return live

    def _prune(self, u, z):
        drop = [f for f in z.flags if f[0] in ("ret", "wret", "L", "P") and u not in self.live.get(f, ())]
        if drop:
            z = z.copy()
            for f in drop:
                del z.flags[f]
        return z

    def _key(self, u, z):
        zs = []
        for v in self.zvars:
            if v in z.d and u in self.live.get(v, ()):
                zs.append((v, 0 if z.iseq(v, ZERO, 0) else 1 if z.isne(v, ZERO, 0) else 2))
        for i, (x, y, c) in enumerate(self.track):
            a, b = z.up(x, y) - c, z.up(y, x) + c
            zs.append((i, "=" if a == 0 and b == 0 else "<" if a < 0 else ">" if b < 0 else "<=" if a == 0 else ">=" if b == 0 else "?"))
        return frozenset(z.flags.items()), frozenset(zs)

    def run(self):
        G = self.G
        order = G.rpo()
        pos = {u: i for i, u in enumerate(order)}
        import heapq
        IN = {G.entry.i: {}}
        cnt = {}
        for z in self.entry:
            IN[G.entry.i][self._key(G.entry.i, z)] = z
        wl = [pos[G.entry.i]]
        inq = {G.entry.i}
        steps = 0
        while wl:
            u = order[heapq.heappop(wl)]
            inq.discard(u)
            steps += 1
            if steps > 60000:
                self.lost.append((G.root.where(), "the index analysis did not reach a fixpoint"))
                break
            nd = G.nodes[u]
            outs = []
            for z in IN.get(u, {}).values():
                outs.extend(self.step(nd, z))
            for v, c in nd.succ:
                if c and c[0] == "exc":
                    ss = list(IN.get(u, {}).values())
                else:
                    ss = []
                    for z in outs:
                        ss.extend(self.assume(z, c[1], c[2], c[3]) if c and c[0] == "if" else [z])
                changed = False
                tgt = IN.setdefault(v, {})
                for z in ss:
                    if z.dead:
                        continue
                    z = self._prune(v, z)
                    k = self._key(v, z)
                    if k not in tgt and len(tgt) >= self.limit:
                        z = z.copy()
                        z.flags = {a: b for a, b in z.flags.items() if a[0] in ("empty",)}
                        k = self._key(v, z)
                    o = tgt.get(k)
                    if o is None:
                        tgt[k] = z
                        changed = True
                    else:
                        c2 = cnt.get((v, k), 0) + 1
                        cnt[(v, k)] = c2
                        j = o.join(z, widen=c2 > 12)
                        if not j.same(o):
                            tgt[k] = j
                            changed = True
                if changed and v not in inq:
                    inq.add(v)
                    heapq.heappush(wl, pos[v])
        self.IN = IN
        self.steps = steps

    def at(self, u):
        return list(self.IN.get(u, {}).values())


# ====================================================================================================== D02
def rename(v, iid):
    return v


def cachers(P):
    out = []
    for n, r in P.recs.items():
        ts = {f["name"]: f["t"] for f in r["fields"]}
        cb = [k for k, t in ts.items() if bare(t).startswith("std::function<cv::Mat (") and "," not in t]
        th = [k for k, t in ts.items() if bare(t) == "std::thread"]
        if cb and th:
            out.append((n, cb, th, ts))
    return out


def written_fields(P, f, rec, inline):
    """fields of rec assigned in f (helpers and lambdas included): {name: [where]}"""
    G = Graph(P, f, inline=inline)
    out = {}
    for nd in G.stmts():
        n = nd.n()
        ps = lhs_written(nd.inst, nd.ref)
        if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) not in ("store", "exchange", "release", "copyTo", "swap"):
            ps = [] if n["k"] == "CXXMemberCallExpr" else ps
        for p in ps:
            if p[0] == "M" and p[1] == ("this",):
                out.setdefault(p[2], []).append(nd.inst.where(nd.ref))
    return G, out


def d02(P, ctx):
    from .conc import worker_entries, entry_methods, inl_class
    n = 0
    for rec, cbs, ths, ts in cachers(P):
        n += 1
        inline = inl_class(P, rec)
        T = ("this",)
        cbp = [("M", T, c) for c in cbs]
        iscb = lambda p: p in cbp
        ws = [w for w in worker_entries(P, rec) if any(last(x.get("fn", "")) == "operator()" or True for x in [{}])]
        ws = [w for w in ws if w.rec == rec or w.kind == "lambda"]
        if len(ws) != 1:
            ctx.notes.append("%s: the precaching thread's function was not identified" % rec)
            continue
        w = ws[0]
        GW, wf = written_fields(P, w, rec, inline)
        mats = [f for f in wf if kind_of(ts.get(f)) == "mat"]
        ints = [f for f in wf if kind_of(ts.get(f)) == "int"]
        if len(mats) != 1 or len(ints) != 1:
            ctx.notes.append("%s: the answer (packet, index) written by the worker was not identified: %s %s" % (rec, mats, ints))
            continue
        rp, answ = ("M", T, mats[0]), ("M", T, ints[0])
        own = {("M", T, f) for f in wf}
        worker(P, ctx, rec, w, GW, rp, answ, own, iscb, ts)
        api(P, ctx, rec, w, rp, answ, own, iscb, ts, inline, wf)
    unpacked(P, ctx)
    if not n:
        ctx.notes.append("no class with a loader callback and a precaching thread")


def lists_of(G):
    out = set()
    for i in G.insts:
        for d in i.decl.values():
            if kind_of(d.get("t")) == "list" and not d.get("ref"):
                out.add(("L", i.id, d["id"], d["name"]))
    return out


def mirrors(zs, p, q, c=0):
    return all(z.iseq(p, q, c) for z in zs)


def worker(P, ctx, rec, w, G, rp, answ, own, iscb, ts):
    T = ("this",)
    entry = Zone()
    entry.eq(answ, ZERO, -1)
    entry.eq(g(rp), ZERO, -1)

    def onwait(states):
        out = []
        for s in states:
            z = s.copy()
            for v in list(z.d):
                b = v[1] if v[0] == "g" else v
                if b[0] == "M" and b[1] == T and b not in own:
                    z.forget(v)
            for f in list(z.flags):
                if f[0] == "M" and f[1] == T and f not in own:
                    del z.flags[f]
            out.append(z)
        return out
    from .conc import fields_touched
    touched = fields_touched(P, w, rec)
    lists = lists_of(G)
    mem = ring(G, ctx, rp, lists)
    track = ()
    if mem:
        entry.flags[("inbuf", rp)] = False
        track = [(mem["F"], ZERO, -1), (mem["X"], ZERO, -1), (mem["F"], mem["X"], 0)]
        if mem["N"] is not None:
            entry.le(ZERO, mem["N"], 0)
    I = Interp(G, iscb, [entry], onwait, mem=mem, track=track)
    if I.lost:
        for wh, why in sorted(set(I.lost)):
            ctx.notes.append("%s: %s" % (wh, why))
        return
    ring_check(G, I, ctx, mem, rp, lists)
    ctx.stats["worker partitions"] = max((len(v) for v in I.IN.values()), default=0)
    ctx.stats["worker steps"] = I.steps
    # the pushes: the index of what is pushed is the one that follows the stored packets
    for nd in G.stmts():
        n = nd.n()
        inst = nd.inst
        zs = I.at(nd.i)
        if not zs:
            continue
        if n["k"] == "CXXMemberCallExpr" and nd.ref not in inst.calls:
            nm = last(n.get("fn", ""))
            p, args, bt = I.object_of(inst, n)
            kd = kind_of(bt)
            if kd == "list" and p in lists:
                if nm in ("push_back", "emplace_back", "push", "emplace") and len(args) == 1:
                    lf = I.mat(inst, args[0])
                    full = [z for z in zs if not z.flags.get(("empty", p))]
                    if lf is None or not all(z.iseq(lf[0], hi(p), lf[1] * -1) for z in full):
                        ctx.bad("in-order", inst.where(nd.ref), "the packet appended to the precached packets is not known to be the one that follows the last stored one: a later request pops another index than the one it asked for", key="inorder|%s" % n.get("line"))
                    else:
                        ctx.ok("in-order", inst.where(nd.ref), "%d states" % len(zs))
                elif nm in ("front", "pop_front", "pop"):
                    if not all(z.up(lo(p), hi(p)) <= -1 or z.flags.get(("empty", p)) is False for z in zs):
                        ctx.bad("stored", inst.where(nd.ref), "'%s' may be reached with no precached packet left" % nm, key="stored|%s|%s" % (nm, n.get("line")))
                    else:
                        ctx.ok("stored", inst.where(nd.ref), nm)
            if bt and "condition_variable" in bt and (nm.startswith("wait") or nm.startswith("notify")):
                if not mirrors(zs, g(rp), answ):
                    ctx.bad("answer", inst.where(nd.ref), "when the worker %s, the packet in '%s' is not known to be the one of the index announced in '%s'" % ("waits" if nm.startswith("wait") else "announces an answer", rp[2], answ[2]), key="answer|%s" % nm)
                else:
                    ctx.ok("answer", inst.where(nd.ref), "%s: %s holds packet %s in %d states" % (nm, rp[2], answ[2], len(zs)))
            if bt and "condition_variable" in bt and nm.startswith("notify"):
                for rq, fl in requests(P, rec, iscb):
                    if rq in own or rq[2] not in touched:
                        continue
                    asked = [z for z in zs if fl and all(z.flags.get(x) for x in fl)]
                    if not asked:
                        continue
                    if not mirrors(asked, answ, rq):
                        ctx.bad("answered", inst.where(nd.ref), "with a request pending, the worker may announce another index than the requested one: the caller waits for ever", key="answered")
                    else:
                        ctx.ok("answered", inst.where(nd.ref), "%s is %s in %d states" % (answ[2], rq[2], len(asked)))


def requests(P, rec, iscb):
    """(index field, flag fields) by which a call asks the worker for a packet"""
    T = ("this",)
    out = []
    for f in P.methods_of(rec):
        if f.kind != "method" or kind_of(f.rt) != "mat" or len(f.params) != 1 or kind_of(f.params[0]["t"]) != "int":
            continue
        rq, fl = set(), set()
        for i, n in enumerate(f.nodes):
            if not n or not (n["k"] == "BinaryOperator" and n["op"] == "=" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "="):
                continue
            a, b = f.nodes[n["ch"][-2]], n["ch"][-1]
            if a["k"] != "MemberExpr" or a.get("rec") != rec:
                continue
            while f.nodes[b]["k"] in CASTS and f.nodes[b].get("ch") and "c" not in f.nodes[b]:
                b = f.nodes[b]["ch"][0]
            nb = f.nodes[b]
            if kind_of(a.get("t")) == "int" and nb["k"] == "DeclRefExpr" and nb.get("d") == f.params[0]["id"]:
                rq.add(("M", T, a["n"]))
            if kind_of(a.get("t")) == "bool" and nb.get("c") in (1, True):
                fl.add(("M", T, a["n"]))
        out += [(r, fl) for r in rq]
    return out


def api(P, ctx, rec, w, rp, answ, own, iscb, ts, inline, wf):
    T = ("this",)
    for f in P.methods_of(rec):
        if f.kind != "method" or kind_of(f.rt) != "mat" or len(f.params) != 1 or kind_of(f.params[0]["t"]) != "int":
            continue
        G = Graph(P, f, inline=inline)
        prm = ("P", G.root.id, f.params[0]["id"], f.params[0]["name"])
        # memoised pairs: a matrix field returned where an integer field equals the requested index
        pairs = memo_pairs(G, prm, ts, own)
        entry = Zone()
        entry.le(ZERO, prm, 0)      # size_t(-1) is the reserved 'no index'
        for m, i in pairs:
            entry.eq(g(m), i, 0)

        def onwait(states):
            out = []
            for s in states:
                z = s.copy()
                for p in own:
                    z.forget(p)
                    z.forget(g(p))
                    z.flags.pop(p, None)
                z.eq(g(rp), answ, 0)
                out.append(z)
            return out
        I = Interp(G, iscb, onwait([entry]), onwait)
        if I.lost:
            for wh, why in sorted(set(I.lost)):
                ctx.notes.append("%s: %s" % (wh, why))
            continue
        for nd in G.stmts():
            n = nd.n()
            inst = nd.inst
            zs = I.at(nd.i)
            if not zs:
                continue
            if n["k"] == "ReturnStmt" and inst is G.root and n.get("ch"):
                lf = I.mat(inst, n["ch"][0])
                if lf is None or not all(z.iseq(lf[0], prm, -lf[1]) for z in zs):
                    ctx.bad("asked-for", inst.where(nd.ref), "%s may return a packet that was not loaded for the requested index" % f.fn, key="asked|%s" % n.get("line"))
                else:
                    ctx.ok("asked-for", inst.where(nd.ref), "%d states" % len(zs))
            leaving = n["k"] in ("ReturnStmt", "CXXThrowExpr") and (inst is G.root or n["k"] == "CXXThrowExpr")
            if n["k"] in CALLS and (last(n.get("fn", "")) == "rethrow_exception" or n["k"] == "CXXOperatorCallExpr" and n.get("op") == "()" and iscb(path(inst, n["ch"][1]))):
                leaving = True
            if leaving:
                for m, i in pairs:
                    if not all(z.iseq(g(m), i, 0) for z in zs):
                        ctx.bad("memo", inst.where(nd.ref), "'%s' can be left holding another packet than the one of index '%s' (the call may end here): the next request for that index returns it" % (m[2], i[2]), key="memo|%s|%s" % (m[2], n["k"]))
                    else:
                        ctx.ok("memo", inst.where(nd.ref), "%s is packet %s" % (m[2], i[2]))
    # threads start with no announced answer
    for f in P.methods_of(rec):
        if not any(n and n["k"] in CTORS and "std::thread::thread" in n.get("fn", "") and n.get("ch") for n in f.nodes):
            continue
        if f.kind != "method":
            continue
        G = Graph(P, f, inline=inline)

        def onw(states):
            return states
        I = Interp(G, iscb, [Zone()], onw)
        for nd in G.stmts():
            n = nd.n()
            if n["k"] in CTORS and "std::thread::thread" in n.get("fn", "") and n.get("ch") and not n.get("cpmv") and len(n["ch"]) > 0:
                zs = I.at(nd.i)
                if not zs:
                    continue
                if not all(z.iseq(answ, ZERO, -1) for z in zs):
                    ctx.bad("fresh", nd.inst.where(nd.ref), "a precaching thread is started while '%s' may still announce an answer of an earlier run: the first request of that index is answered with the earlier packet" % answ[2], key="fresh")
                else:
                    ctx.ok("fresh", nd.inst.where(nd.ref), "%s is -1" % answ[2])


def memo_pairs(G, prm, ts, own):
    F = MustFacts(G)
    out = []
    for nd in G.stmts():
        n = nd.n()
        if n["k"] != "ReturnStmt" or nd.inst is not G.root or not n.get("ch"):
            continue
        m = path(nd.inst, n["ch"][0])
        if m[0] != "M" or kind_of(ts.get(m[2])) != "mat" or m in own:
            continue
        for a in F.at(nd.i):
            if a[0] == "==" and prm in a[1:]:
                o = a[1] if a[2] == prm else a[2]
                if o[0] == "M" and o[1] == ("this",) and kind_of(ts.get(o[2])) == "int" and (m, o) not in out:
                    out.append((m, o))
    return out


def data_of(p, B=None):
    """(buffer, offset path or None) of an address into a byte vector"""
    if p[0] == "call" and last(p[1]) == "data" and "vector<unsigned char" in p[1] and len(p) == 3:
        return p[2], None
    if p[0] == "b+":
        for a, b in ((p[1], p[2]), (p[2], p[1])):
            r = data_of(a)
            if r and r[1] is None:
                return r[0], b
    if p[0] == "&" and p[1][0] == "idx" and p[1][1][0] in ("L", "M"):
        return p[1][1], (None if p[1][2] == ("c", 0) else p[1][2])
    return None


def ring(G, ctx, rp, lists):
    """the byte buffer in which packets are stored one after the other: headers placed, size, first and next offsets"""
    heads = {}
    offs, bufs = set(), set()
    for nd in G.stmts():
        n = nd.n()
        if n["k"] not in CTORS or not n.get("fn", "").startswith("cv::Mat::Mat") or len(n.get("ch", [])) < 4:
            continue
        for c in n["ch"]:
            r = data_of(path(nd.inst, c))
            if r:
                src = [path(nd.inst, a) for a in n["ch"]]
                m = [s[2] for s in src if s[0] == "call" and last(s[1]) == "type" and len(s) == 3]
                S = size_var(G, nd.inst, m[0]) if m else None
                if S is None or (r[1] is not None and r[1][0] not in ("L", "M")):
                    ctx.notes.append("%s: the size or the place of a stored packet was not understood" % nd.inst.where(nd.ref))
                    return None
                heads.setdefault(nd.inst.id, {})[nd.ref] = (r[1], S)
                bufs.add(r[0])
                if r[1] is not None:
                    offs.add(r[1])
    if len(bufs) != 1 or len(offs) != 1:
        if bufs:
            ctx.notes.append("the offsets at which packets are stored were not understood")
        return None
    B, X = bufs.pop(), offs.pop()

    def offset_of(p):
        if p[0] == "b-" and p[1][0] == "M" and p[1][2] == "data":
            r = data_of(p[2])
            if r and r[0] == B and r[1] is None:
                return p[1][1]
        return None
    F = set()
    fnodes = {}
    for nd in G.stmts():
        n = nd.n()
        if n["k"] == "BinaryOperator" and n["op"] == "=":
            v = path(nd.inst, n["ch"][1])
            if any(offset_of(x) is not None for x in ([v] if v[0] != "?:" else v[2:])):
                F.add(path(nd.inst, n["ch"][0]))
    if len(F) != 1:
        ctx.notes.append("where the oldest stored packet starts was not understood")
        return None
    F = F.pop()

    def packet(I, inst, nid):
        for i in inst.fn.walk(nid):
            n = inst.fn.nodes[i]
            if n["k"] == "MemberExpr" and n.get("n") == "data" and n.get("ch"):
                b = inst.fn.nodes[n["ch"][0]]
                return I.mat(inst, n["ch"][0])
        return None
    N = None
    for i in G.insts:
        for d in i.decl.values():
            if ("L", i.id, d["id"], d["name"]) == B and d.get("init", -1) >= 0:
                v = path(i, d["init"])
                if v[0] == "new" and v[2] and v[2][0][0] in ("L", "P", "M"):
                    N = v[2][0]
    if N is None:
        ctx.notes.append("the size of the buffer of stored packets was not understood")
        return None
    return dict(B=B, X=X, F=F, N=N, headers=heads, offset_of=offset_of, packet=packet)


def size_var(G, inst, m):
    want = {("call", "cv::Mat::elemSize", m), ("call", "cv::Mat::total", m)}
    i = inst
    while i is not None:
        for d in i.decl.values():
            if d.get("init", -1) >= 0 and kind_of(d.get("t")) == "int":
                v = path(i, d["init"])
                if v[0] == "b*" and set(v[1:]) == want:
                    return ("L", i.id, d["id"], d["name"])
        i = i.defenv or i.caller
    return None


def ring_check(G, I, ctx, mem, rp, lists):
    if not mem:
        return
    F, X, N = mem["F"], mem["X"], mem["N"]
    for nd in G.stmts():
        n = nd.n()
        inst = nd.inst
        zs = I.at(nd.i)
        if not zs:
            continue
        if n["k"] in CTORS and nd.ref in mem["headers"].get(inst.id, {}):
            off, S = mem["headers"][inst.id][nd.ref]
            why = None
            for z in zs:
                z = z.copy()
                end = S
                if off is not None:
                    end = ("sum", tuple(sorted((off, S), key=repr)))
                    I.sumfacts(z, end)
                if z.up(end, N) > 0:
                    why = "beyond the end of the buffer"
                elif off is not None and z.up(ZERO, off) > 0:
                    why = "at an offset that was never set"
                elif z.iseq(F, ZERO, -1):
                    if any(z.flags.get(("empty", p)) is not True for p in lists):
                        why = "over packets that are still stored (the buffer is taken for empty)"
                    elif z.flags.get(("inbuf", rp)) is not False:
                        why = "over the packet handed out last (the buffer is taken for empty)"
                    elif off is not None:
                        why = "at an offset that was never set"
                elif off is None:
                    if not (z.up(S, F) <= 0 and z.up(F, X) <= -1):
                        why = "over packets that are still in use, at the start of the buffer"
                else:
                    if not (z.up(F, X) <= -1 or z.up(end, F) <= 0):
                        why = "over packets that are still in use, behind the last stored one"
                if why:
                    break
            if why:
                ctx.bad("placed", inst.where(nd.ref), "a packet may be stored " + why, key="placed|%s|%s" % (n.get("line"), why))
            else:
                ctx.ok("placed", inst.where(nd.ref), "inside the free part of the buffer in %d states" % len(zs))
        if n["k"] == "CXXMemberCallExpr" and nd.ref not in inst.calls:
            nm = last(n.get("fn", ""))
            p, args, bt = I.object_of(inst, n)
            if not (bt and "condition_variable" in bt and (nm.startswith("wait") or nm.startswith("notify"))):
                continue
            why = None
            for z in zs:
                if z.iseq(F, ZERO, -1) and z.iseq(X, ZERO, -1):
                    continue
                if z.flags.get(("fptr",)):
                    if not z.iseq(("fi",), g(rp), 0):
                        why = "'%s' is not where the packet handed out last starts: its memory is taken for free" % F[3]
                elif not z.iseq(F, ("start",), 0):
                    why = "'%s' is not where the oldest stored packet starts" % F[3]
                if not why and not z.iseq(X, ("end",), 0):
                    why = "'%s' is not where the packet stored last ends" % X[3]
                if why:
                    break
            if why:
                ctx.bad("bounds-kept", inst.where(nd.ref), why, key="ring|%s|%s" % (nm, why))
            else:
                ctx.ok("bounds-kept", inst.where(nd.ref), "%d states" % len(zs))


def unpacked(P, ctx):
    """array accessors: the vector returned for index i was unpacked from packet i in the same call, or is kept with its own index"""
    for f in P.all():
        if f.kind != "method" or not f.params or kind_of(f.params[0]["t"]) != "int" or bare(f.rt) not in ("std::vector<cv::Mat>", "std::vector<cv::Mat, std::allocator<cv::Mat>>") or "&" not in f.rt:
            continue
        if not any(n and n["k"] in CALLS and last(n.get("fn", "")) == "unpackData" for n in f.nodes):
            # the unpacking may sit in a helper
            if not any(n and n["k"] in CALLS and n.get("fk") and P.get(n["fk"], f.tu) and any(m and m["k"] in CALLS and last(m.get("fn", "")) == "unpackData" for m in P.get(n["fk"], f.tu).nodes) for n in f.nodes):
                continue
        G = Graph(P, f, inline=lambda i, n, c: c.kind == "lambda" or c.file == f.file and bare(c.rt) not in (MAT,) and c.rec == f.rec)
        prm = ("P", G.root.id, f.params[0]["id"], f.params[0]["name"])
        tainted = {prm}
        for _ in range(4):
            for nd in G.stmts():
                n = nd.n()
                if n["k"] == "DeclStmt":
                    for d in n["decls"]:
                        if d.get("init", -1) >= 0 and any(sub(path(nd.inst, d["init"]), t) for t in list(tainted)):
                            tainted.add(("L", nd.inst.id, d["id"], d["name"]))
                elif n.get("op") == "=" and n["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and len(n["ch"]) >= 2:
                    if any(sub(path(nd.inst, n["ch"][-1]), t) for t in list(tainted)) and path(nd.inst, n["ch"][-2])[0] == "L":
                        tainted.add(path(nd.inst, n["ch"][-2]))
            for i in G.insts:
                for prm2 in i.fn.params:
                    b = i.bind.get(prm2["id"])
                    if b and not b[2] and any(sub(path(b[0], b[1]), t) for t in list(tainted)):
                        tainted.add(("L", i.id, prm2["id"], prm2["name"]))
        rets = [nd for nd in G.stmts() if nd.n()["k"] == "ReturnStmt" and nd.inst is G.root and nd.n().get("ch")]
        for rn in rets:
            v = path(rn.inst, rn.n()["ch"][0])
            if v[0] != "M":
                continue
            # backward from the return: assignments of the vector
            bad = None
            seen = {rn.i}
            wl = [rn.i]
            while wl and bad is None:
                u = wl.pop()
                nd = G.nodes[u]
                if nd.kind == "stmt" and u != rn.i:
                    n = nd.n()
                    w = lhs_written(nd.inst, nd.ref)
                    if v in w:
                        if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("resize", "clear", "assign"):
                            a = callee_args(n)[1]
                            if last(n["fn"]) == "clear" or a and path(nd.inst, a[0]) == ("c", 0):
                                continue
                        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                            r = val(nd.inst, n["ch"][2])
                            if r[0] == "new" and not r[2]:
                                continue
                            if not any(sub(r, t) or sub(path(nd.inst, n["ch"][2]), t) for t in tainted):
                                bad = (nd.inst.where(nd.ref), "the arrays returned by %s are unpacked from a packet that does not depend on the requested index" % f.fn)
                            continue
                        continue
                if u == G.entry.i:
                    bad = (rn.inst.where(rn.ref), "%s may return arrays unpacked by an earlier call: nothing ties them to the requested index" % f.fn)
                    break
                for p, c in nd.pred:
                    if p not in seen:
                        if c and c[0] == "if" and own_index(P, c, prm, v, f):
                            continue
                        seen.add(p)
                        wl.append(p)
            if bad:
                ctx.bad("unpacked", bad[0], bad[1], key="unpacked|" + f.fn)
            else:
                ctx.ok("unpacked", rn.inst.where(rn.ref), f.fn)


def own_index(P, c, prm, v, f):
    """does the edge require that an index field written only together with the vector equals the requested index"""
    from .flow import edge_atoms
    for a in edge_atoms(c):
        if a[0] == "==" and prm in a[1:]:
            o = a[1] if a[2] == prm else a[2]
            if o[0] == "M" and o[1] == ("this",):
                ok = True
                for m in P.methods_of(f.rec):
                    w = {n["n"] for i, n in enumerate(m.nodes) if n and n["k"] == "MemberExpr" and n.get("dk") == "field" and assigned(m, i)}
                    if o[2] in w and v[2] not in w and m.kind != "ctor":
                        ok = False
                return ok
    return False


def assigned(m, i):
    p = m.parents().get(i)
    n = m.nodes[p] if p is not None else None
    if not n:
        return False
    if n["k"] == "BinaryOperator" and n["op"] == "=" or n["k"] == "CompoundAssignOperator":
        return n["ch"][0] == i
    return n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n["ch"][1] == i
