"""Rule context: obligations, findings, evidence."""
import os
from . import extract as X
from .program import rel


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []          # (kind, where, detail, ok)
        self.viol = []         # (key, where, message)
        self.notes = []
        self.stats = {}

    def ok(self, kind, where, detail=""):
        self.obl.append((kind, where, detail, True))

    def bad(self, kind, where, msg, key=None):
        key = key or (kind + "|" + where.split(" <- ")[0] + "|" + msg)
        if any(v[0] == key for v in self.viol):
            return
        self.obl.append((kind, where, msg, False))
        self.viol.append((key, where, "[%s] %s" % (kind, msg)))

    def need(self, kind, minimum):
        n = sum(1 for o in self.obl if o[0] == kind)
        if n < minimum:
            raise X.AnalysisBroken("rule '%s' matched %d instances, expected at least %d: the analysed construct moved; the analysis cannot answer" % (kind, n, minimum))

    def count(self, kind):
        return sum(1 for o in self.obl if o[0] == kind)
