"""Lockset dataflow over inlined flow graphs: which mutexes are certainly held at each node."""
import re
from .flow import *

LOCKT = re.compile(r"^(const )?std::(lock_guard|unique_lock|scoped_lock|shared_lock)<")
UNLOCKG = re.compile(r"^(const )?lv::unlock_guard<")
MUTEXT = re.compile(r"^(mutable )?std::(recursive_|timed_|shared_)?mutex$")


def owner_path(inst, nid):
    """the object that the constructor call nid initialises"""
    fn = inst.fn
    for d in inst.decl.values():
        if d.get("init", -1) == nid:
            return ("L", inst.id, d["id"], d["name"])
    for i in fn.d.get("inits", []):
        if i["init"] == nid and i.get("field"):
            return ("M", inst.this or ("this",), i["field"])
    return ("obj", inst.id, nid)


def ident(P, p, inst=None):
    """a mutex path -> global identity (record field or global), so that different objects of one class share it"""
    if p[0] == "M":
        return "." + p[2]
    if p[0] == "G":
        return p[1]
    return repr(p)


class Locks:
    """state = (held mutex paths, guard objects); must-analysis (intersection at joins)"""

    def __init__(self, G, init=frozenset()):
        self.G = G
        self.IN, self.OUT = {}, {}
        self.acquires = []     # (node, mutex path, held before)
        order = G.rpo()
        changed, rounds = True, 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for u in order:
                nd = G.nodes[u]
                if u == G.entry.i:
                    s = (frozenset(init), frozenset())
                else:
                    s = None
                    for p, c in nd.pred:
                        o = self.OUT.get(p)
                        if o is None:
                            continue
                        if c is not None and c[0] == "exc":
                            o = self.unwind(self.IN.get(p, o), c)
                        s = o if s is None else (s[0] & o[0], s[1] & o[1])
                    if s is None:
                        continue
                o = self.transfer(nd, s)
                if self.IN.get(u) != s or self.OUT.get(u) != o:
                    self.IN[u], self.OUT[u] = s, o
                    changed = True
        for u in order:
            if u in self.IN:
                a = self.acq(G.nodes[u], self.IN[u])
                for m in a:
                    self.acquires.append((G.nodes[u], m, self.IN[u][0]))

    def unwind(self, s, c):
        inst, tid = c[1], c[2]
        body = set(inst.fn.walk(inst.fn.nodes[tid]["ch"][0]))
        held, guards = set(s[0]), set(s[1])
        ids = set()
        for nid in body:
            n = inst.fn.nodes[nid]
            if n["k"] == "DeclStmt":
                ids.update(d["id"] for d in n["decls"])

        def inside(p):
            r = p
            while r[0] == "M":
                r = r[1]
            if r[0] == "L":
                return (r[1] == inst.id and r[2] in ids) or r[1] > inst.id
            if r[0] == "obj":
                return (r[1] == inst.id and r[2] in body) or r[1] > inst.id
            return False
        for g in sorted(guards, key=lambda g: g[0] != "U"):
            if inside(g[1]):
                guards.discard(g)
                if g[0] == "U":
                    for h in list(guards):
                        if h[0] == "G" and h[1] == g[2]:
                            guards.discard(h)
                            guards.add(("G", h[1], h[2], True))
                            held.add(h[2])
                elif g[3]:
                    held.discard(g[2])
        return frozenset(held), frozenset(guards)

    def acq(self, nd, s):
        """mutex paths this node acquires"""
        if nd.kind == "stmt":
            n = nd.n()
            if n["k"] in CTORS and LOCKT.match(n.get("t", "")) and not n.get("cpmv"):
                ts = n.get("pt", [])
                if any("defer_lock" in t or "adopt_lock" in t or "try_to_lock" in t for t in ts):
                    return []
                return [path(nd.inst, a) for a, t in zip(n["ch"], ts) if "mutex" in t or "unique_lock" in t]
            if n["k"] == "CXXMemberCallExpr" and last(n.get("fn", "")) == "lock":
                o = self.obj(nd)
                for g in s[1]:
                    if g[0] == "G" and g[1] == o:
                        return [g[2]]
                if MUTEXT.match((n.get("rec") or "").replace("class ", "")) or "mutex" in (n.get("rec") or ""):
                    return [o]
        elif nd.kind in ("dtor", "tdtor"):
            o = self.dobj(nd)
            for g in s[1]:
                if g[0] == "U" and g[1] == o:
                    for h in s[1]:
                        if h[0] == "G" and h[1] == g[2]:
                            return [h[2]]
        return []

    def obj(self, nd):
        n = nd.n()
        m = nd.inst.fn.nodes[n["ch"][0]]
        b = path(nd.inst, m["ch"][0]) if m.get("ch") else ("&", ("this",))
        return deref(b) if m.get("arrow") else b

    def dobj(self, nd):
        if nd.kind == "dtor":
            return ("L", nd.inst.id, nd.ref["dtor"], nd.ref["n"])
        if nd.kind == "mdtor":
            return ("M", nd.inst.this, nd.ref["mdtor"])
        return ("obj", nd.inst.id, nd.ref["tdtor"])

    def transfer(self, nd, s):
        held, guards = s
        if nd.kind == "stmt":
            n = nd.n()
            k = n["k"]
            if k in CTORS and LOCKT.match(n.get("t", "")):
                o = owner_path(nd.inst, nd.ref)
                if n.get("cpmv"):
                    src = path(nd.inst, n["ch"][0])
                    g2 = set(guards)
                    for g in guards:
                        if g[0] == "G" and g[1] == src:
                            g2.discard(g)
                            g2.add(("G", o) + g[2:])
                    return held, frozenset(g2)
                ts = n.get("pt", [])
                ms = [path(nd.inst, a) for a, t in zip(n["ch"], ts) if "mutex" in t or "unique_lock" in t]
                deferred = any("defer_lock" in t or "try_to_lock" in t for t in ts)
                g2 = guards | frozenset(("G", o, m, not deferred) for m in ms)
                return (held if deferred else held | frozenset(ms)), g2
            if k in CTORS and UNLOCKG.match(n.get("t", "")) and not n.get("cpmv"):
                o = owner_path(nd.inst, nd.ref)
                h2, g2 = set(held), set(guards)
                for a in n["ch"]:
                    tgt = path(nd.inst, a)
                    hit = False
                    for g in guards:
                        if g[0] == "G" and g[1] == tgt:
                            g2.discard(g)
                            g2.add(("G", g[1], g[2], False))
                            h2.discard(g[2])
                            hit = True
                    if not hit:
                        h2.discard(tgt)
                    g2.add(("U", o, tgt))
                return frozenset(h2), frozenset(g2)
            if k == "CXXMemberCallExpr" and last(n.get("fn", "")) in ("lock", "unlock", "release"):
                o = self.obj(nd)
                on = last(n["fn"])
                for g in guards:
                    if g[0] == "G" and g[1] == o:
                        if on == "lock":
                            return held | {g[2]}, (guards - {g}) | {("G", o, g[2], True)}
                        return held - {g[2]}, (guards - {g}) | {("G", o, g[2], False)}
                if "mutex" in (n.get("rec") or ""):
                    return (held | {o}, guards) if on == "lock" else (held - {o}, guards)
        elif nd.kind in ("dtor", "tdtor", "mdtor"):
            o = self.dobj(nd)
            h2, g2 = set(held), set(guards)

            def under(p):
                while True:
                    if p == o:
                        return True
                    if p[0] != "M":
                        return False
                    p = p[1]
            ch = False
            for g in guards:
                if under(g[1]):
                    ch = True
                    g2.discard(g)
                    if g[0] == "U":
                        hit = False
                        for h in guards:
                            if h[0] == "G" and h[1] == g[2]:
                                g2.discard(h)
                                g2.add(("G", h[1], h[2], True))
                                h2.add(h[2])
                                hit = True
                        if not hit:
                            h2.add(g[2])
                    elif g[3]:
                        h2.discard(g[2])
            if ch:
                return frozenset(h2), frozenset(g2)
        return s

    def held(self, u):
        return self.IN.get(u, (frozenset(), frozenset()))[0]


def no_lock_inline(inst, n, callee):
    """never expand the RAII helpers that the lockset interprets natively"""
    return not (callee.rec or "").startswith(("lv::unlock_guard<",))
