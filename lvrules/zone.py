"""Difference bounds (x - y <= c) with disequalities and boolean flags: the abstract states of the index analyses."""
INF = float("inf")
ZERO = ("0",)


class Zone:
    __slots__ = ("d", "neq", "flags", "dead")

    def __init__(self):
        self.d = {ZERO: {ZERO: 0}}
        self.neq = frozenset()      # (x, y, c): x != y + c
        self.flags = {}
        self.dead = False

    def copy(self):
        z = Zone()
        z.d = {k: dict(v) for k, v in self.d.items()}
        z.neq = self.neq
        z.flags = dict(self.flags)
        z.dead = self.dead
        return z

    def up(self, x, y):
        return self.d.get(x, {}).get(y, INF if x != y else 0)

    def _touch(self, x):
        if x not in self.d:
            self.d[x] = {x: 0}

    def le(self, x, y, c):
        """x - y <= c"""
        if self.dead:
            return self
        if x == y:
            if c < 0:
                self.dead = True
            return self
        self._touch(x)
        self._touch(y)
        if self.up(y, x) + c < 0:
            self.dead = True
            return self
        if self.up(x, y) <= c:
            return self
        ins = [(i, r[x]) for i, r in self.d.items() if x in r]
        outs = list(self.d[y].items())
        for i, a in ins:
            ri = self.d[i]
            for j, b in outs:
                v = a + c + b
                if v < ri.get(j, INF):
                    if i == j:
                        if v < 0:
                            self.dead = True
                            return self
                        continue
                    ri[j] = v
        return self.settle()

    def settle(self):
        for x, y, c in self.neq:
            if self.dead:
                return self
            a, b = self.up(x, y), self.up(y, x)
            if a == c and b == -c:
                self.dead = True
            elif a == c:
                return self.le(x, y, c - 1)
            elif b == -c:
                return self.le(y, x, -c - 1)
        return self

    def eq(self, x, y, c):
        self.le(x, y, c)
        return self.le(y, x, -c)

    def ne(self, x, y, c):
        if x == y:
            if c == 0:
                self.dead = True
            return self
        self._touch(x)
        self._touch(y)
        if (x, y, c) not in self.neq and (y, x, -c) not in self.neq:
            self.neq = self.neq | {(x, y, c)}
        return self.settle()

    def iseq(self, x, y, c):
        return x == y and c == 0 or (self.up(x, y) <= c and self.up(y, x) <= -c)

    def isne(self, x, y, c):
        return (x, y, c) in self.neq or (y, x, -c) in self.neq or self.up(x, y) < c or self.up(y, x) < -c

    def forget(self, x, sums=True):
        if sums:
            for v in [v for v in self.d if v[0] == "sum" and x in v[1]]:
                self.forget(v, False)
        if x in self.d:
            del self.d[x]
            for r in self.d.values():
                r.pop(x, None)
        if any(x in (a, b) for a, b, _ in self.neq):
            self.neq = frozenset(t for t in self.neq if x not in t[:2])

    def assign(self, x, y, c):
        """x := y + c (y None: unknown)"""
        if y is None:
            self.forget(x)
        elif y == x:
            if x not in self.d or c == 0:
                return
            for v in [v for v in self.d if v[0] == "sum" and x in v[1]]:
                self.forget(v, False)
            for j in list(self.d[x]):
                if j != x:
                    self.d[x][j] += c
            for i, r in self.d.items():
                if i != x and x in r:
                    r[x] -= c
            self.neq = frozenset((a, b, k + c if a == x else k - c) if x in (a, b) else (a, b, k) for a, b, k in self.neq)
        elif y[0] == "sum" and x in y[1]:
            t = ("tmp",)
            self.eq(t, y, c)
            self.forget(x)
            self.eq(x, t, 0)
            self.forget(t)
        else:
            self.forget(x)
            inherited = [t for t in self.neq if y in t[:2]]
            self.eq(x, y, c)
            for a, b, k in inherited:      # y != b + k  ->  x != b + k + c
                if a == y and b != x:
                    self.ne(x, b, k + c)
                elif b == y and a != x:
                    self.ne(a, x, k - c)

    def join(self, o, widen=False):
        """least upper bound; returns a new zone"""
        z = Zone()
        for x, r in self.d.items():
            ro = o.d.get(x)
            if ro is None:
                continue
            nr = {}
            for y, c in r.items():
                if y in ro:
                    m = max(c, ro[y])
                    if widen and m > c:
                        continue
                    nr[y] = m
            z.d[x] = nr
        z.d.setdefault(ZERO, {ZERO: 0})
        z.neq = frozenset(t for t in (self.neq if widen else self.neq | o.neq) if self.isne(*t) and o.isne(*t))
        z.flags = {k: v for k, v in self.flags.items() if o.flags.get(k) == v}
        return z

    def same(self, o):
        return self.d == o.d and self.neq == o.neq and self.flags == o.flags
