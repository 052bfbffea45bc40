"""Conditional constant propagation over an inlined flow graph: given constants for some reads (a cell of a finite
partition of the inputs), which statements stay reachable and what constants reach them."""
from .flow import *

INTMASK = {"unsigned char": (0, 255), "bool": (0, 1), "signed char": (-128, 127), "char": (-128, 127),
           "unsigned short": (0, 65535), "short": (-32768, 32767)}


class CProp:
    def __init__(self, G, leaf, stop=None):
        """leaf(inst, nid) -> constant or None for the reads fixed by this cell"""
        self.G = G
        self.leaf = leaf
        self.memo = {}
        self.IN = {}
        self.undecided = set()
        self.run()

    # ---------------------------------------------------------------- expressions
    def ev(self, inst, nid, st, d=0):
        if nid is None or nid < 0 or d > 60:
            return None
        fn = inst.fn
        n = fn.nodes[nid]
        k = n["k"]
        if "c" in n and k not in CALLS:
            return n["c"]
        r = self.leaf(inst, nid)
        if r is not None:
            return r
        if k == "CXXBoolLiteralExpr":
            return n.get("c")
        if k in CASTS:
            v = self.ev(inst, n["ch"][0], st, d + 1) if n.get("ch") else None
            if v is None or isinstance(v, float):
                return v
            t = n.get("t", "").replace("const ", "")
            if t == "bool":
                return int(bool(v))
            if t in INTMASK:
                lo, hi = INTMASK[t]
                if not (lo <= v <= hi):
                    m = hi - lo + 1
                    v = (v - lo) % m + lo
            return v
        if k == "DeclRefExpr" and n.get("dk") in ("local", "parm", "slocal"):
            dd = n["d"]
            owner, info = inst.find_decl(dd)
            if owner is None:
                return None
            if dd in owner.bind and owner.bind[dd] and (owner.bind[dd][2] or dd not in mutated(owner.fn)):
                ci, cn, _ = owner.bind[dd]
                return self.ev(ci, cn, st, d + 1)
            if info is not None and info.get("init", -1) >= 0 and dd not in mutated(owner.fn) and ("cap", dd) not in mutated(owner.fn) and not info.get("static"):
                return self.ev(owner, info["init"], st, d + 1)
            return st.get(("L", owner.id, dd))
        if k == "UnaryOperator":
            v = self.ev(inst, n["ch"][0], st, d + 1)
            if v is None:
                return None
            op = n["op"]
            return {"!": lambda: int(not v), "-": lambda: -v, "+": lambda: v, "~": lambda: ~v}.get(op, lambda: None)()
        if k == "BinaryOperator":
            op = n["op"]
            a, b = n["ch"]
            if op in ("&&", "||"):
                x = self.ev(inst, a, st, d + 1)
                if x is not None and bool(x) == (op == "||"):
                    return int(op == "||")
                y = self.ev(inst, b, st, d + 1)
                if y is not None and bool(y) == (op == "||"):
                    return int(op == "||")
                if x is None or y is None:
                    return None
                return int(bool(y))
            if op == ",":
                return self.ev(inst, b, st, d + 1)
            if op == "=":
                return self.ev(inst, b, st, d + 1)
            x, y = self.ev(inst, a, st, d + 1), self.ev(inst, b, st, d + 1)
            if x is None or y is None:
                return None
            return arith(op, x, y)
        if k == "ConditionalOperator":
            c = self.ev(inst, n["ch"][0], st, d + 1)
            if c is None:
                x, y = self.ev(inst, n["ch"][1], st, d + 1), self.ev(inst, n["ch"][2], st, d + 1)
                return x if x == y else None
            return self.ev(inst, n["ch"][1 if c else 2], st, d + 1)
        if k in CTORS and n.get("cpmv") and n.get("ch"):
            return self.ev(inst, n["ch"][0], st, d + 1)
        if k in CALLS and nid in inst.calls:
            ci = inst.calls[nid]
            vals = set()
            for rn in ci.rets:
                if rn.i in self.IN:
                    ch = rn.n().get("ch", [])
                    vals.add(self.ev(ci, ch[0], self.IN[rn.i], d + 1) if ch else None)
            if len(vals) == 1:
                return vals.pop()
        return None

    # ---------------------------------------------------------------- transfer
    def transfer(self, nd, st):
        if nd.kind != "stmt":
            return st
        n = nd.n()
        k = n["k"]
        inst = nd.inst
        if k == "DeclStmt":
            st = dict(st)
            for d in n["decls"]:
                if d["id"] in mutated(inst.fn) or ("cap", d["id"]) in mutated(inst.fn):
                    v = self.ev(inst, d.get("init", -1), st)
                    key = ("L", inst.id, d["id"])
                    if v is None:
                        st.pop(key, None)
                    else:
                        st[key] = v
            return st
        tgt, newv = None, None
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ASSIGN:
            tgt = self.local(inst, n["ch"][0])
            if tgt:
                if n["op"] == "=":
                    newv = self.ev(inst, n["ch"][1], st)
                else:
                    x, y = st.get(tgt), self.ev(inst, n["ch"][1], st)
                    newv = arith(n["op"][:-1], x, y) if x is not None and y is not None else None
        elif k == "UnaryOperator" and n.get("op") in ("++", "--", "post++", "post--"):
            tgt = self.local(inst, n["ch"][0])
            if tgt:
                newv = None  # loop counters: not tracked
        elif k in CALLS and nd.ref not in inst.calls:
            st2 = None
            for p in lhs_written(inst, nd.ref):
                if p[0] in ("L", "P"):
                    key = ("L",) + p[1:3]
                    if key in st:
                        st2 = st2 if st2 is not None else dict(st)
                        st2.pop(key, None)
            return st2 if st2 is not None else st
        if tgt:
            st = dict(st)
            if newv is None:
                st.pop(tgt, None)
            else:
                st[tgt] = newv
        return st

    def local(self, inst, nid):
        p = path(inst, nid)
        if p[0] in ("L", "P"):
            return ("L",) + p[1:3]
        return None

    def run(self):
        G = self.G
        self.IN = {G.entry.i: {}}
        work = [G.entry.i]
        cnt = {}
        while work:
            u = work.pop()
            cnt[u] = cnt.get(u, 0) + 1
            if cnt[u] > 50:
                continue
            nd = G.nodes[u]
            out = self.transfer(nd, self.IN[u])
            for v, c in nd.succ:
                if c is not None and c[0] == "if":
                    x = self.ev(c[1], c[2], out)
                    if x is not None and bool(x) != c[3]:
                        continue
                    if x is None:
                        self.undecided.add((c[1].id, c[2]))
                elif c is not None and c[0] == "case":
                    x = self.ev(c[1], c[2], out)
                    if x is not None and c[3] is not None and x != c[3]:
                        continue
                elif c is None and any(cc is not None and cc[0] == "case" for _, cc in nd.succ):
                    # default edge of a switch
                    cs = [cc for _, cc in nd.succ if cc is not None and cc[0] == "case"]
                    x = self.ev(cs[0][1], cs[0][2], out)
                    if x is not None and any(cc[3] == x for cc in cs):
                        continue
                elif c is not None and c[0] == "exc":
                    continue
                old = self.IN.get(v)
                if old is None:
                    self.IN[v] = dict(out)
                    work.append(v)
                else:
                    new = {k: x for k, x in old.items() if out.get(k) == x and k in out}
                    if len(new) != len(old):
                        self.IN[v] = new
                        work.append(v)


def arith(op, x, y):
    try:
        if op == "+": return x + y
        if op == "-": return x - y
        if op == "*": return x * y
        if op == "/":
            if y == 0: return None
            return int(x / y) if isinstance(x, int) and isinstance(y, int) else x / y
        if op == "%": return None if y == 0 else x - int(x / y) * y
        if op == "<": return int(x < y)
        if op == ">": return int(x > y)
        if op == "<=": return int(x <= y)
        if op == ">=": return int(x >= y)
        if op == "==": return int(x == y)
        if op == "!=": return int(x != y)
        if op == "&": return x & y
        if op == "|": return x | y
        if op == "^": return x ^ y
        if op == "<<": return x << y if 0 <= y < 64 else None
        if op == ">>": return x >> y if 0 <= y < 64 else None
    except TypeError:
        return None
    return None
