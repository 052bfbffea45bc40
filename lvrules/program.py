"""The resolved program: functions, records, globals of all analysed translation units, and path/condition normalisation."""
import os
from . import extract as X


class Fn:
    __slots__ = ("fk", "fn", "file", "line", "endline", "rt", "rec", "kind", "params", "nodes", "cfg", "entry", "exit", "body",
                 "tu", "d", "access", "_par", "_blk", "_mut")

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.fk = d["fk"]
        self.fn = d["fn"]
        self.file = d["file"]
        self.line = d["line"]
        self.endline = d.get("endline", 0)
        self.rt = d.get("rt", "")
        self.rec = d.get("rec")
        self.kind = d["kind"]
        self.access = d.get("access")
        self.params = d["params"]
        self.nodes = d["nodes"]
        self.cfg = {b["id"]: b for b in d.get("cfg", [])}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.body = d["body"]
        self._par = None
        self._blk = None
        self._mut = None

    def where(self, nid=None):
        l = self.line
        if nid is not None and nid >= 0 and self.nodes[nid]:
            l = self.nodes[nid].get("line", l)
        return "%s:%d" % (rel(self.file), l)

    def parents(self):
        if self._par is None:
            p = {}
            for i, n in enumerate(self.nodes):
                if n:
                    for c in n.get("ch", []):
                        if c is not None and c >= 0 and c not in p:
                            p[c] = i
            self._par = p
        return self._par

    def walk(self, nid=None):
        """pre-order ids of the AST below nid (default: body + ctor initialisers)"""
        stack = [self.body] if nid is None else [nid]
        if nid is None:
            for i in self.d.get("inits", []):
                stack.append(i["init"])
        seen = set()
        out = []
        while stack:
            i = stack.pop()
            if i is None or i < 0 or i in seen:
                continue
            seen.add(i)
            out.append(i)
            stack.extend(reversed(self.nodes[i].get("ch", [])))
        return out

    def __repr__(self):
        return "<Fn %s %s>" % (self.fn, self.where())


def rel(f):
    if f.startswith(X.REPO + "/"):
        return f[len(X.REPO) + 1:]
    if "/modules/" in f and ".cache" in f:
        return "modules/" + f.split("/modules/", 1)[1]
    return f


class Program:
    def __init__(self, patterns, witness=()):
        self.tus = X.extract(patterns, witness)
        self.fns = {}
        self.lam = {}
        self.recs = {}
        self.globals = {}
        self.enums = {}
        self.nfunc = 0
        for ti, (name, d) in enumerate(self.tus):
            for f in d["functions"]:
                if f["fk"].startswith("lambda#"):
                    fn = Fn(f, ti)
                    self.lam[(ti, f["fk"])] = fn
                else:
                    old = self.fns.get(f["fk"])
                    if old is None:
                        self.fns[f["fk"]] = Fn(f, ti)
            for r in d["records"]:
                if r["name"] not in self.recs:
                    self.recs[r["name"]] = r
            for g in d["globals"]:
                if g["q"] not in self.globals or ("init" in g and "init" not in self.globals[g["q"]]):
                    self.globals[g["q"]] = g
            for e in d["enums"]:
                self.enums[e["name"]] = e
        self.byname = {}
        for f in list(self.fns.values()):
            self.byname.setdefault(f.fn, []).append(f)
        self.units = [n for n, _ in self.tus]
        for _, d in self.tus:
            d.clear()

    def all(self, lambdas=True):
        out = list(self.fns.values())
        if lambdas:
            out += list(self.lam.values())
        return out

    def get(self, fk, tu=None):
        if fk is None:
            return None
        if fk.startswith("lambda#"):
            return self.lam.get((tu, fk))
        return self.fns.get(fk)

    def named(self, q):
        return self.byname.get(q, [])

    def methods_of(self, rec):
        return [f for f in self.fns.values() if f.rec == rec]

    def bases(self, rec, seen=None):
        """transitive base class names (most derived first)"""
        seen = seen if seen is not None else []
        r = self.recs.get(rec)
        if r:
            for b in r["bases"]:
                if b["t"] not in seen:
                    seen.append(b["t"])
                    self.bases(b["t"], seen)
        return seen

    def derived(self, base):
        return [n for n in self.recs if base in self.bases(n)]

    def final_overrider(self, fk, dyn):
        """the method that a virtual call to fk reaches on an object whose most derived class is dyn"""
        best = None
        for c in [dyn] + self.bases(dyn):
            r = self.recs.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["fk"] == fk or self._overrides(m, fk):
                    return m["fk"]
        return best

    def _overrides(self, m, fk, depth=0):
        if fk in m["over"]:
            return True
        if depth > 8:
            return False
        for o in m["over"]:
            mm = self._method(o)
            if mm and self._overrides(mm, fk, depth + 1):
                return True
        return False

    def _method(self, fk):
        if not hasattr(self, "_mi"):
            self._mi = {m["fk"]: m for r in self.recs.values() for m in r["methods"]}
        return self._mi.get(fk)
