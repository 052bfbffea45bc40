"""Abstract interpretation of small numeric functions: every value is kept as (polynomial normal form over uninterpreted
atoms, interval, machine type).  Loops with constant limits are unrolled, counting loops over a symbolic limit become sums,
branches become guarded values, calls to repository functions are inlined."""
from fractions import Fraction
import re

INF = float("inf")
LIM = 3000


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- polynomials over atoms
def pc(x):
    return {(): Fraction(x)} if x else {}


def pa(atom):
    return {(atom,): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > LIM:
        raise Unknown("expression too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr)) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    for m in list(r):
        d = [x for i, x in enumerate(m) if isinstance(x, tuple) and x[0] == "abs" and i and m[i - 1] == x]
        if d:                                   # |x|*|x| = x*x
            c = r.pop(m)
            ms = list(m)
            ms.remove(d[0])
            ms.remove(d[0])
            q = unk(d[0][1])
            for mm, cc in pmul(pmul({tuple(ms): c}, q), q).items():
                v = r.get(mm, 0) + cc
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
    return r


def pk(p):
    return tuple(sorted(p.items(), key=repr))


def unk(k):
    return dict(k)


def pconst(p):
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def neg(p):
    return {m: -c for m, c in p.items()}


def mentions(x, a):
    if x == a:
        return True
    return isinstance(x, tuple) and any(mentions(y, a) for y in x)


# ---------------------------------------------------------------- conditions (True, False, or trees)
def c_not(c):
    if c is True or c is False:
        return not c
    return c[1] if c[0] == "not" else ("not", c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True or a == b:
        return a
    return ("and",) + tuple(sorted((a, b), key=repr))


def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))


def sgn(p):
    """p or -p, whichever is canonical (for symmetric uses)"""
    q = neg(p)
    return min(pk(p), pk(q), key=repr)


def p_ite(c, p):
    """c ? p : 0"""
    if c is True:
        return p
    if c is False or not p:
        return {}
    if c[0] == "not":
        return padd(p, p_ite(c[1], p), -1)
    return {(("ite", c, m),): v for m, v in p.items()}


class N:
    """number"""
    __slots__ = ("p", "lo", "hi", "t")

    def __init__(s, p, lo, hi, t, loose=False):
        s.p, s.lo, s.hi, s.t = p, lo, hi, t
        k = pconst(p)
        if not loose and k is not None and not (lo <= k <= hi):
            s.lo = s.hi = k

    def __repr__(s):
        return "N(%s,[%s,%s],%s)" % (pshow(s.p), s.lo, s.hi, s.t)


class Ptr:
    __slots__ = ("b", "o", "t")

    def __init__(s, b, o, t):
        s.b, s.o, s.t = b, o, t


class Obj:
    """a named array-like argument"""
    __slots__ = ("b", "t")

    def __init__(s, b, t):
        s.b, s.t = b, t


class Arr:
    """local array (flow of its own: identity is the key into the environment)"""
    __slots__ = ("k", "t")

    def __init__(s, k, t):
        s.k, s.t = k, t


class Lut:
    __slots__ = ("v", "t")

    def __init__(s, v, t):
        s.v, s.t = v, t


NULL = ("null",)


def pshow(p):
    def at(a):
        if not isinstance(a, tuple):
            return str(a)
        if a[0] == "in":
            return "%s[%s]" % (a[1], pshow(unk(a[2])))
        if a[0] in ("abs", "sqrt", "pop", "trunc", "xor", "max", "min", "idiv", "div"):
            return "%s(%s)" % (a[0], ", ".join(pshow(unk(x)) for x in a[1:]))
        if a[0] == "bits":
            return "bits(%s: %s)" % (", ".join(pshow(unk(x)) for x in a[1]), "".join(map(str, a[2])))
        if a[0] == "sum":
            return "sum[%s<%s](%s)" % (a[1], pshow(unk(a[2])), "*".join(at(x) for x in a[3]) or "1")
        if a[0] == "ite":
            return "when(%s)(%s)" % (cshow(a[1]), "*".join(at(x) for x in a[2]) or "1")
        return "".join(str(x) for x in a)[:60]
    r = []
    for m, c in sorted(p.items(), key=repr)[:8]:
        s = "*".join(at(x) for x in m)
        r.append(("%s*%s" % (c, s) if c != 1 else s) if m else str(c))
    return " + ".join(r) + (" + ..." if len(p) > 8 else "") if r else "0"


def cshow(c):
    if c is True or c is False:
        return str(c)
    if c[0] == "not":
        return "!" + cshow(c[1])
    if c[0] == "and":
        return "(%s && %s)" % (cshow(c[1]), cshow(c[2]))
    if c[0] == "eq":
        return pshow(unk(c[1])) + "==0"
    if c[0] == "lt":
        return pshow(unk(c[1])) + "<0"
    return str(c)


# ---------------------------------------------------------------- machine types
W = {"unsigned char": (8, 0), "signed char": (8, 1), "char": (8, 1), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0),
     "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0), "bool": (1, 0)}
FL = ("float", "double", "long double")


def base(t):
    t = re.sub(r"\b(const|volatile)\b", "", t).replace("&", "").strip()
    return re.sub(r"\s+", " ", t)


def trange(t):
    t = base(t)
    if t in W:
        w, s = W[t]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return (-INF, INF)


def pointee(t):
    t = base(t)
    m = re.match(r"(.*?)\s*\*$", t)
    if m:
        return base(m.group(1))
    m = re.match(r"(.*?)\s*\[\d*\]$", t)
    return base(m.group(1)) if m else None


POP8 = tuple(bin(i).count("1") for i in range(256))


class Interp:
    def __init__(s, P, notes=None):
        s.P = P
        s.wraps = []      # (function, node id, text)
        s.zero = []       # divisions by something that can be zero
        s.loopn = 0
        s.depth = 0
        s.quiet = 0

    # ---- events
    def wrap(s, f, nid, v, t, what):
        if not s.quiet:
            s.wraps.append((f, nid, "%s: a value in [%s, %s] does not fit %s" % (what, v.lo, v.hi, t)))

    # ---- calls
    def call(s, f, args, env0=None, this=None):
        if s.depth > 24:
            raise Unknown("recursion")
        env = {}
        for p, a in zip(f.params, args):
            env[p["id"]] = a
        env["$this"] = this
        env["$pc"] = ()
        s.depth += 1
        try:
            rets = []
            s.stmt(f, f.d["body"], env, rets, None)
        finally:
            s.depth -= 1
        if not rets:
            raise Unknown("no value returned")
        v = rets[-1][1]
        for pcnd, r in reversed(rets[:-1]):
            c = True
            for x in pcnd:
                c = c_and(c, x)
            v = s.ite(c, r, v)
        if isinstance(v, N) and f.rt and base(f.rt) in W and base(f.rt) != "bool" and isinstance(v, N):
            v = s.conv(f, None, v, f.rt)
        return v

    def ite(s, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)) and a != NULL and b != NULL:
            return c_or(c_and(c, a), c_and(c_not(c), b))
        if isinstance(a, N) and isinstance(b, N):
            if a.p == b.p:
                return N(a.p, min(a.lo, b.lo), max(a.hi, b.hi), a.t)
            return N(padd(b.p, p_ite(c, padd(a.p, b.p, -1))), min(a.lo, b.lo), max(a.hi, b.hi), a.t)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and a.o == b.o:
            return a
        if type(a) is type(b) and isinstance(a, (Obj, Arr)) and (a.b if isinstance(a, Obj) else a.k) == (b.b if isinstance(b, Obj) else b.k):
            return a
        raise Unknown("values of different kinds meet")

    def merge(s, c, e1, e2):
        r = {}
        for k in set(e1) | set(e2):
            if k == "$pc":
                continue
            if k not in e1 or k not in e2:
                continue
            a, b = e1[k], e2[k]
            if a is b or a == b:
                r[k] = a
            elif isinstance(a, dict) and isinstance(b, dict):
                r[k] = {i: s.ite(c, a[i], b[i]) for i in a if i in b}
            else:
                try:
                    r[k] = s.select(c, a, b)
                except Unknown:
                    pass
        return r

    # ---- statements: returns True when control can go on to the next statement
    def stmt(s, f, nid, env, rets, brk):
        if nid is None or nid < 0:
            return True
        n = f.nodes[nid]
        k = n["k"]
        if k == "CompoundStmt":
            for c in n["ch"]:
                if not s.stmt(f, c, env, rets, brk):
                    return False
            return True
        if k in ("AttributedStmt", "LabelStmt"):
            return s.stmt(f, n["ch"][-1], env, rets, brk)
        if k == "DeclStmt":
            for d in n.get("decls", ()):
                s.declare(f, d, env)
            return True
        if k == "NullStmt":
            return True
        if k == "ReturnStmt":
            v = s.ev(f, n["ch"][0], env) if n["ch"] else None
            if f.rt and base(f.rt) in FL and isinstance(v, N):
                v = N(v.p, v.lo, v.hi, base(f.rt))
            rets.append((env["$pc"], v))
            return False
        if k == "CXXThrowExpr":
            return False
        if k == "IfStmt":
            pt = n["parts"]
            if pt.get("init", -1) is not None and pt.get("init", -1) >= 0:
                s.stmt(f, pt["init"], env, rets, brk)
            if pt.get("var", -1) is not None and pt.get("var", -1) >= 0:
                s.stmt(f, pt["var"], env, rets, brk)
            c = s.cond(f, pt["cond"], env)
            th, el = pt.get("then", -1), pt.get("else", -1)
            if c is True:
                return s.stmt(f, th, env, rets, brk)
            if c is False:
                return s.stmt(f, el, env, rets, brk)
            pc0 = env["$pc"]
            e1, e2 = s.copy(env), s.copy(env)
            e1["$pc"] = pc0 + (c,)
            e2["$pc"] = pc0 + (c_not(c),)
            r1 = s.stmt(f, th, e1, rets, brk)
            r2 = s.stmt(f, el, e2, rets, brk)
            if not r1 and not r2:
                return False
            if r1 and r2:
                m = s.merge(c, e1, e2)
                m["$pc"] = pc0
            else:
                m = e1 if r1 else e2
            env.clear()
            env.update(m)
            return True
        if k == "SwitchStmt":
            v = s.num(s.ev(f, n["ch"][-2] if len(n["ch"]) > 1 else n["ch"][0], env), f, nid)
            kv = pconst(v.p)
            if kv is None:
                raise Unknown("switch on an unknown value")
            body = f.nodes[n["ch"][-1]]
            flat = []

            def fl(i):
                x = f.nodes[i]
                if x["k"] in ("CaseStmt", "DefaultStmt"):
                    flat.append(("case", x.get("c") if x["k"] == "CaseStmt" else None))
                    fl(x["ch"][-1])
                else:
                    flat.append(("s", i))
            for c in body["ch"]:
                fl(c)
            start = next((i for i, x in enumerate(flat) if x[0] == "case" and x[1] is not None and x[1] == kv), None)
            if start is None:
                start = next((i for i, x in enumerate(flat) if x[0] == "case" and x[1] is None), None)
            if start is None:
                return True
            b = []
            for x in flat[start:]:
                if x[0] == "s":
                    if not s.stmt(f, x[1], env, rets, b):
                        if b:
                            raise_if = [e for e in b if e[0] == "break"]
                            if len(raise_if) == 1:
                                env.clear()
                                env.update(raise_if[0][1])
                                return True
                        return False
            if b:
                raise Unknown("conditional break")
            return True
        if k == "BreakStmt":
            if brk is None:
                raise Unknown("break")
            brk.append(("break", s.copy(env)))
            return False
        if k == "ContinueStmt":
            if brk is None:
                raise Unknown("continue")
            brk.append(("continue", s.copy(env)))
            return False
        if k in ("ForStmt", "WhileStmt", "DoStmt"):
            return s.loop(f, nid, n, env, rets)
        if k == "CXXForRangeStmt":
            raise Unknown("range loop")
        s.ev(f, nid, env)
        return True

    def copy(s, env):
        return {k: (dict(v) if isinstance(v, dict) else v) for k, v in env.items()}

    def body_once(s, f, parts, env, rets):
        """one iteration (body, then increment); merges continue; None if a break or return can happen"""
        b = []
        n0 = len(rets)
        ok = s.stmt(f, parts.get("body", -1), env, rets, b)
        if any(x[0] == "break" for x in b):
            return "break"
        conts = [x[1] for x in b]
        if len(rets) != n0 and (ok or conts):
            return "return"
        if not ok and not conts:
            return False
        # merge the continue environments back in
        allp = ([s.copy(env)] if ok else []) + conts
        m = allp[0]
        for e in allp[1:]:
            # the paths are exclusive: pick by the innermost differing condition
            p1, p2 = m["$pc"], e["$pc"]
            i = 0
            while i < len(p1) and i < len(p2) and p1[i] == p2[i]:
                i += 1
            if i < len(p2) and (i >= len(p1) or c_not(p2[i]) == p1[i]):
                c = True
                for x in p2[i:]:
                    c = c_and(c, x)
                r = s.merge(c, e, m)
            elif i < len(p1):
                c = True
                for x in p1[i:]:
                    c = c_and(c, x)
                r = s.merge(c, m, e)
            else:
                return "?"
            r["$pc"] = p1[:i]
            m = r
        env.clear()
        env.update(m)
        if parts.get("inc", -1) is not None and parts.get("inc", -1) >= 0:
            s.ev(f, parts["inc"], env)
        return True

    def loop(s, f, nid, n, env, rets):
        pt = n["parts"]
        if pt.get("init", -1) is not None and pt.get("init", -1) >= 0:
            s.stmt(f, pt["init"], env, rets, None)
        first = n["k"] == "DoStmt"
        cnd = pt.get("cond", -1)
        for it in range(300):
            if not first:
                snap = s.copy(env)
                c = True if cnd is None or cnd < 0 else s.cond(f, cnd, env)
                if c is False:
                    return True
                if c is not True:
                    env.clear()
                    env.update(snap)
                    return s.summarise(f, nid, n, env, rets)
            first = False
            pc0 = env["$pc"]
            r = s.body_once(f, pt, env, rets)
            if r is False:
                return False
            if r is not True:
                raise Unknown("loop left early (%s)" % r)
            env["$pc"] = pc0
        raise Unknown("loop too long")

    def written(s, f, nid, acc):
        n = f.nodes[nid]
        if n["k"] == "BinaryOperator" and n["op"] == "=" or n["k"] == "CompoundAssignOperator" or n["k"] == "UnaryOperator" and n["op"] in ("++", "--", "post++", "post--"):
            x = f.nodes[n["ch"][0]]
            while x["k"] in ("ParenExpr", "ImplicitCastExpr"):
                x = f.nodes[x["ch"][0]]
            acc.add(x["d"] if x["k"] == "DeclRefExpr" else None)
        elif n["k"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            pass
        for c in n["ch"]:
            if c >= 0:
                s.written(f, c, acc)

    def summarise(s, f, nid, n, env, rets):
        pt = n["parts"]
        ws = set()
        for part in ("body", "inc", "cond"):
            if pt.get(part, -1) is not None and pt.get(part, -1) >= 0:
                s.written(f, pt[part], ws)
        if None in ws:
            raise Unknown("loop writes through a pointer")
        s.loopn += 1
        K = "k%d" % s.loopn
        kp = pa(K)
        vs = [v for v in ws if v in env]
        if any(not isinstance(env[v], (N, Ptr)) for v in vs):
            raise Unknown("loop changes a non-number")
        start = {v: env[v] for v in vs}

        def sym(guess):
            e = s.copy(env)
            for v in vs:
                x = start[v]
                if v in guess:
                    c = guess[v]
                    step = pmul(c, kp)
                    if isinstance(x, N):
                        e[v] = N(padd(x.p, step), *((x.lo, INF) if (pconst(c) or 0) >= 0 else (0, x.hi)), x.t)
                    else:
                        e[v] = Ptr(x.b, padd(x.o, step), x.t)
                else:
                    a = ("lv", K, v)
                    e[v] = N(pa(a), *trange(x.t), x.t) if isinstance(x, N) else Ptr(x.b, pa(a), x.t)
            e["$pc"] = ()
            return e

        def run(guess):
            e = sym(guess)
            b = s.copy(e)
            c = s.cond(f, pt["cond"], e)
            rr = []
            r = s.body_once(f, pt, e, rr)
            if r is not True or rr:
                raise Unknown("loop left early")
            return b, c, e
        s.quiet += 1
        try:
            b, c, e = run({})
        finally:
            s.quiet -= 1
        steps = {}
        for v in vs:
            x, y = b[v], e[v]
            d = padd(y.p, x.p, -1) if isinstance(x, N) else (padd(y.o, x.o, -1) if y.b == x.b else None)
            if d is not None and pconst(d) is not None:
                steps[v] = d
        b, c, e = run(steps)
        # trip count
        if c is True or c is False or c[0] not in ("lt", "eq", "not"):
            raise Unknown("loop condition")
        neg_ = c[0] == "not"
        cc = c[1] if neg_ else c
        if cc[0] not in ("lt", "eq"):
            raise Unknown("loop condition")
        q = unk(cc[1])                       # holds while q<0 / q==0 / !(q<0) / q!=0
        lin, rest = Fraction(0), {}
        for m, co in q.items():
            if m == (K,):
                lin += co
            elif K in m or mentions(m, K):
                raise Unknown("loop condition")
            else:
                rest[m] = co
        if cc[0] == "lt" and not neg_:       # rest + lin*k < 0
            if lin <= 0:
                raise Unknown("loop does not advance")
            T = {m: -co / lin for m, co in rest.items()}
        elif cc[0] == "lt":                  # rest + lin*k >= 0 : k <= rest/-lin
            if lin >= 0:
                raise Unknown("loop does not advance")
            T = padd({m: co / -lin for m, co in rest.items()}, pc(1))
        elif neg_ and cc[0] == "eq":
            if lin == 0:
                raise Unknown("loop does not advance")
            T = {m: -co / lin for m, co in rest.items()}
        else:
            raise Unknown("loop condition")
        if any(co.denominator != 1 for co in T.values()):
            raise Unknown("number of iterations is not exact")
        out = s.copy(env)
        for v in vs:
            x = start[v]
            if v in steps:
                st = pmul(steps[v], T)
                out[v] = N(padd(x.p, st), *trange(x.t), x.t) if isinstance(x, N) else Ptr(x.b, padd(x.o, st), x.t)
            else:
                a = ("lv", K, v)
                if not isinstance(x, N):
                    raise Unknown("pointer changed irregularly")
                d = padd(e[v].p, b[v].p, -1)
                if any(mentions(m, ("lv", K, w)) for w in vs for m in d):
                    raise Unknown("loop-carried value")
                out[v] = N(padd(x.p, s.sum(K, T, d)), *trange(x.t), x.t)
        # induction variables of the condition's side effects (post-decrement) end one step further: values after such loops are not used
        env.clear()
        env.update(out)
        return True

    def sum(s, K, T, p):
        r = {}
        Tk = pk(T)
        for m, co in p.items():
            def ren(x, to):
                if x == K:
                    return to
                return tuple(ren(y, to) for y in x) if isinstance(x, tuple) else x
            if not mentions(m, K):
                r = padd(r, pmul({m: co}, T))
                continue
            m1 = tuple(sorted((ren(x, "#") for x in m), key=repr))
            # canonical under reversal k -> T-1-k
            m2 = s.resub(m, K, padd(padd(T, pc(1), -1), pa("#"), -1))
            cand = min([m1] + ([m2] if m2 is not None else []), key=repr)
            r = padd(r, {(("sum", "#", Tk, cand),): co})
        return r

    def resub(s, m, K, q):
        """monomial m with K replaced by q inside the indices of its atoms; None if that is not a monomial again"""
        def sp(p):
            out = {}
            for mm, co in p.items():
                t = {(): co}
                for a in mm:
                    if a == K:
                        t = pmul(t, q)
                    else:
                        aa = sa(a)
                        if aa is None:
                            return None
                        t = pmul(t, pa(aa))
                out = padd(out, t)
            return out

        def sa(a):
            if not mentions(a, K):
                return a
            if not isinstance(a, tuple):
                return None
            if a[0] == "in":
                p = sp(unk(a[2]))
                return None if p is None else ("in", a[1], pk(p))
            if a[0] in ("abs", "sqrt", "pop", "xor", "trunc", "div", "idiv", "max", "min"):
                ps = [sp(unk(x)) for x in a[1:]]
                return None if any(p is None for p in ps) else (a[0],) + tuple(pk(p) if a[0] != "abs" else sgn(p) for p in ps)
            if a[0] == "ite":
                c = sc(a[1])
                mm = [sa(x) for x in a[2]]
                return None if c is None or any(x is None for x in mm) else ("ite", c, tuple(sorted(mm, key=repr)))
            return None

        def sc(c):
            if c is True or c is False:
                return c
            if c[0] in ("eq", "lt"):
                p = sp(unk(c[1]))
                return None if p is None else (c[0], sgn(p) if c[0] == "eq" else pk(p))
            if c[0] in ("not", "and"):
                xs = [sc(x) for x in c[1:]]
                return None if any(x is None for x in xs) else (c[0],) + tuple(xs)
            return None
        r = [sa(x) for x in m]
        return None if any(x is None for x in r) else tuple(sorted(r, key=repr))

    # ---- declarations
    def declare(s, f, d, env):
        t = base(d["t"])
        init = d.get("init", -1)
        if re.search(r"\[\d+\]$", t):
            el = pointee(t)
            if init is not None and init >= 0 and f.nodes[init]["k"] == "InitListExpr":
                vals = []
                for c in f.nodes[init]["ch"]:
                    v = s.num(s.ev(f, c, env), f, c)
                    vals.append(v)
                if d.get("static") or all(pconst(v.p) is not None for v in vals):
                    env[d["id"]] = Lut(tuple(pconst(v.p) for v in vals), el)
                else:
                    env[d["id"]] = Arr(("arr", d["id"]), el)
                    env[("arr", d["id"])] = dict(enumerate(vals))
                return
            env[d["id"]] = Arr(("arr", d["id"]), el)
            env[("arr", d["id"])] = {}
            return
        m = re.match(r"(?:std::array|cv::Vec|cv::Matx)<(.*?), (\d+)", t)
        if m and "&" not in d["t"]:
            if init is not None and init >= 0:
                v = None
                try:
                    v = s.ev(f, init, env)
                except Unknown:
                    pass
                if isinstance(v, (Obj, Arr)):
                    env[d["id"]] = v if isinstance(v, Obj) else s.clone(v, d, env)
                    return
            env[d["id"]] = Arr(("arr", d["id"]), base(m.group(1)))
            env[("arr", d["id"])] = {}
            return
        if init is None or init < 0:
            if t in W or t in FL:
                env[d["id"]] = N(pa(("uninit", d["id"])), *trange(t), t)
            return
        v = s.ev(f, init, env)
        if t == "bool":
            v = s.tobool(v)
        elif isinstance(v, (bool, tuple)) and v != NULL and (t in W or t in FL):
            v = s.num(v, f, init)
        if isinstance(v, N) and (t in W or t in FL):
            v = s.conv(f, init, v, t)
        env[d["id"]] = v

    def clone(s, v, d, env):
        env[("arr", d["id"])] = dict(env[v.k])
        return Arr(("arr", d["id"]), v.t)

    # ---- conversions
    def num(s, v, f=None, nid=None):
        if isinstance(v, N):
            return v
        if v is True or v is False:
            return N(pc(int(v)), int(v), int(v), "int")
        if isinstance(v, tuple) and v != NULL:
            return N(p_ite(v, pc(1)), 0, 1, "int")
        raise Unknown("not a number")

    def tobool(s, v):
        if v is True or v is False or isinstance(v, tuple) and v != NULL:
            return v
        if v == NULL:
            return False
        if isinstance(v, (Ptr, Obj, Arr, Lut)):
            return True
        return c_not(s.cmp("==", v, N({}, 0, 0, "int")))

    def cond(s, f, nid, env):
        return s.tobool(s.ev(f, nid, env))

    def conv(s, f, nid, v, t):
        t = base(t)
        if t == "bool":
            return s.num(s.tobool(v))
        if t in FL:
            return N(v.p, v.lo, v.hi, t)
        if t not in W:
            return v
        lo, hi = trange(t)
        if v.t in FL:
            p = v.p
            k = pconst(p)
            if k is not None:
                return N(pc(int(k)), int(k), int(k), t)
            return N(pa(("trunc", pk(p))), max(v.lo, lo), min(v.hi, hi), t)
        if v.lo >= lo and v.hi <= hi:
            return N(v.p, v.lo, v.hi, t)
        w = W[t][0]
        # truncation of a shifted word to one of its bytes
        if len(v.p) == 1 and w == 8 and not W[t][1]:
            (m, co), = v.p.items()
            if co == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "shr":
                return N(pa(("byte", m[0][1], m[0][2] // 8)), 0, 255, t) if m[0][2] % 8 == 0 else N(pa(("cut", w, pk(v.p))), lo, hi, t)
            if co == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] in ("in",):
                return N(pa(("byte", pk(v.p), 0)), 0, 255, t)
        if w >= 64 and (v.hi == INF or v.lo >= 0):
            return N(v.p, max(v.lo, lo), min(v.hi, hi), t)
        s.wrap(f, nid, v, t, "conversion")
        return N(pa(("wrap", w, pk(v.p))), lo, hi, t)

    # ---- comparisons
    def cmp(s, op, a, b):
        if isinstance(a, (Ptr, Obj, Arr, Lut)) or isinstance(b, (Ptr, Obj, Arr, Lut)) or a == NULL or b == NULL:
            if a == NULL and b == NULL:
                return op == "=="
            if a == NULL or b == NULL:
                return op == "!="
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                big = N(a.o, -INF, INF, "long"), N(b.o, -INF, INF, "long")
                return s.cmp(op, *big)
            raise Unknown("pointer comparison")
        a, b = s.num(a), s.num(b)
        d = padd(a.p, b.p, -1)
        k = pconst(d)
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if k is not None:
            lo = hi = k
        if op == "==":
            if k is not None:
                return k == 0
            if lo > 0 or hi < 0:
                return False
            it = [m for m in d if m]
            if len(it) == 1 and len(it[0]) == 1 and isinstance(it[0][0], tuple) and it[0][0][0] == "ite" and it[0][0][2] == ():
                k0, c = d.get((), 0), it[0][0][1]       # k0 + k1*(c?1:0) == 0
                return c_or(c_and(c, k0 + d[it[0]] == 0), c_and(c_not(c), k0 == 0))
            return ("eq", sgn(d))
        if op == "!=":
            return c_not(s.cmp("==", a, b))
        if op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
            # integers with a zero lower limit: 0 < x is x != 0
            if pconst(a.p) == 0 and b.lo >= 0 and b.t in W:
                return c_not(("eq", sgn(b.p)))
            return ("lt", pk(d))
        if op == ">":
            return s.cmp("<", b, a)
        if op == "<=":
            return c_not(s.cmp("<", b, a))
        if op == ">=":
            return c_not(s.cmp("<", a, b))
        raise Unknown(op)

    # ---- arithmetic
    def arith(s, f, nid, op, a, b, t):
        t = base(t)
        if isinstance(a, (Ptr, Arr, Lut)) or isinstance(b, (Ptr, Arr, Lut)):
            if isinstance(a, Arr):
                a = Ptr(a.k, {}, a.t)
            if isinstance(b, Arr):
                b = Ptr(b.k, {}, b.t)
            if isinstance(a, Ptr) and isinstance(b, N):
                return Ptr(a.b, padd(a.o, b.p, 1 if op == "+" else -1), a.t)
            if isinstance(b, Ptr) and isinstance(a, N) and op == "+":
                return Ptr(b.b, padd(b.o, a.p), b.t)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.b == b.b:
                return N(padd(a.o, b.o, -1), -INF, INF, "long")
            raise Unknown("pointer arithmetic")
        if t == "bool" and op in ("|", "&", "^"):
            x, y = s.tobool(a), s.tobool(b)
            if op == "^":
                return c_or(c_and(x, c_not(y)), c_and(c_not(x), y))
            return c_or(x, y) if op == "|" else c_and(x, y)
        if op in ("|", "&") and isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
            return c_or(s.tobool(a), s.tobool(b)) if op == "|" else c_and(s.tobool(a), s.tobool(b))
        a, b = s.num(a), s.num(b)
        same = a.p == b.p
        if op in ("+", "-"):
            p = padd(a.p, b.p, 1 if op == "+" else -1)
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if op == "+" else (a.lo - b.hi, a.hi - b.lo)
            if op == "-" and lo < 0 and s.lagrange(a.p, b.p):
                lo = 0
            return s.fit(f, nid, N(p, lo, hi, t), t)
        if op == "*":
            p = pmul(a.p, b.p)

            def mul(x, y):
                return 0 if x == 0 or y == 0 else x * y
            c = [mul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = min(c), max(c)
            if same:
                lo = 0 if a.lo <= 0 <= a.hi else min(mul(a.lo, a.lo), mul(a.hi, a.hi))
                hi = max(mul(a.lo, a.lo), mul(a.hi, a.hi))
            return s.fit(f, nid, N(p, lo, hi, t), t)
        if op == "/":
            if b.lo <= 0 <= b.hi and not (pconst(b.p) not in (None, 0)):
                not s.quiet and s.zero.append((f, nid, "the divisor %s can be zero" % pshow(b.p)[:80]))
            kb = pconst(b.p)
            if t in FL:
                if kb:
                    return N({m: co / kb for m, co in a.p.items()}, -INF, INF, t)
                if b.lo > 0 and a.lo >= 0:
                    return N(pa(("div", pk(a.p), pk(b.p))), 0, INF, t)
                return N(pa(("div", pk(a.p), pk(b.p))), -INF, INF, t)
            ka = pconst(a.p)
            if kb and ka is not None:
                q = abs(ka) // abs(kb) * (1 if ka * kb >= 0 else -1)
                return N(pc(q), q, q, t)
            if kb == 1:
                return N(a.p, a.lo, a.hi, t)
            hi = a.hi if b.lo <= 0 else (a.hi / b.lo if a.hi == INF else a.hi // max(int(b.lo), 1) if b.lo != INF else 0)
            return N(pa(("idiv", pk(a.p), pk(b.p))), 0 if a.lo >= 0 and b.lo >= 0 else -INF, hi, t)
        if op == "^":
            ka, kb = pconst(a.p), pconst(b.p)
            if a.lo >= 0 and b.lo >= 0:
                top = max(a.hi, b.hi)
                bits = int(top).bit_length() if top != INF else 64
                return N(pa(("xor",) + tuple(sorted((pk(a.p), pk(b.p)), key=repr))), 0, (1 << bits) - 1, t)
            return s.bitop(op, a, b, t)
        if op == ">>":
            kb = pconst(b.p)
            if kb is None or a.lo < 0:
                raise Unknown("shift")
            if kb == 0:
                return N(a.p, a.lo, a.hi, t)
            return N(pa(("shr", pk(a.p), int(kb))), 0, a.hi if a.hi == INF else int(a.hi) >> int(kb), t)
        if op == "<<":
            kb = pconst(b.p)
            if kb is None:
                raise Unknown("shift")
            return s.arith(f, nid, "*", a, N(pc(1 << int(kb)), 1 << int(kb), 1 << int(kb), t), t)
        if op == "%":
            ka, kb = pconst(a.p), pconst(b.p)
            if ka is not None and kb:
                return N(pc(ka % kb), ka % kb, ka % kb, t)
            raise Unknown("modulo")
        if op == "&":
            kb = pconst(b.p)
            ka = pconst(a.p)
            if ka is not None:
                a, b, ka, kb = b, a, kb, ka
            if kb is not None and a.lo >= 0 and kb >= 0:
                if int(kb) & (int(kb) + 1) == 0 and a.hi <= kb:
                    return N(a.p, a.lo, a.hi, t)
                if kb == 255:
                    p = a.p
                    if len(p) == 1:
                        (m, co), = p.items()
                        if co == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "shr" and m[0][2] % 8 == 0:
                            return N(pa(("byte", m[0][1], m[0][2] // 8)), 0, 255, t)
                    return N(pa(("byte", pk(p), 0)), 0, 255, t)
            return s.bitop(op, a, b, t)
        if op == "|":
            return s.bitop(op, a, b, t)
        raise Unknown("operator " + op)

    def bitop(s, op, a, b, t):
        """bitwise function of the inputs, kept as its truth table"""
        def tab(v):
            k = pconst(v.p)
            if k == 0:
                return (), (0,)
            if k == -1:
                return (), (1,)
            if len(v.p) == 1:
                (m, c), = v.p.items()
                if c == 1 and len(m) == 1 and isinstance(m[0], tuple):
                    x = m[0]
                    if x[0] == "in":
                        return (pk(v.p),), (0, 1)
                    if x[0] == "xor":
                        return tuple(x[1:]), (0, 1, 1, 0)
                    if x[0] == "bits":
                        return x[1], x[2]
            raise Unknown("bit operation")
        va, ta = tab(a)
        vb, tb = tab(b)
        vs = tuple(sorted(set(va) | set(vb), key=repr))
        if len(vs) > 4 or any(x.hi == INF and x.lo >= 0 for x in (a, b)):
            raise Unknown("bit operation")
        out = []
        for i in range(1 << len(vs)):
            bit = {v: (i >> j) & 1 for j, v in enumerate(vs)}
            x = ta[sum(bit[v] << j for j, v in enumerate(va))]
            y = tb[sum(bit[v] << j for j, v in enumerate(vb))]
            out.append(x & y if op == "&" else x | y if op == "|" else x ^ y)
        for v in list(vs):                       # variables without influence
            j = vs.index(v)
            if all(out[i] == out[i | (1 << j)] for i in range(len(out)) if not (i >> j) & 1):
                out = [out[i] for i in range(len(out)) if not (i >> j) & 1]
                vs = vs[:j] + vs[j + 1:]
        bits = max(int(x.hi if x.lo >= 0 else max(-x.lo - 1, x.hi)).bit_length() for x in (a, b))
        lo, hi = (0, (1 << bits) - 1) if not out[0] else (-(1 << bits), -1)
        if not vs:
            return N(pc(-out[0]), -out[0], -out[0], t)
        if len(vs) == 1 and out == [0, 1]:
            return N(unk(vs[0]), lo, hi, t)
        if len(vs) == 2 and out == [0, 1, 1, 0]:
            return N(pa(("xor",) + vs), lo, hi, t)
        return N(pa(("bits", vs, tuple(out))), lo, hi, t)

    def lagrange(s, a, b):
        """a - b with a = sum x_i^2 and b = (sum x_i y_i)^2 / max(1, sum y_i^2)"""
        if len(b) != 1:
            return False
        (m, co), = b.items()
        if co != 1 or len(m) != 1 or not isinstance(m[0], tuple) or m[0][0] not in ("idiv", "div"):
            return False
        P, Q = unk(m[0][1]), unk(m[0][2])
        if len(Q) == 1 and len(next(iter(Q))) == 1 and isinstance(next(iter(Q))[0], tuple) and next(iter(Q))[0][0] == "max":
            xs = [unk(x) for x in next(iter(Q))[0][1:]]
            Q = next((x for x in xs if pconst(x) is None), None)
            if Q is None or not any(pconst(x) == 1 for x in xs):
                return False
        for x in (a, Q):
            if not all(len(k) == 2 and k[0] == k[1] and v == 1 for k, v in x.items()):
                return False
        try:
            d = padd(pmul(a, Q), P, -1)
            X, Y = [k[0] for k in a], [k[0] for k in Q]
            if len(X) != len(Y):
                return False
            key = lambda z: repr(z[2]) if isinstance(z, tuple) and len(z) > 2 else repr(z)
            X.sort(key=key)
            Y.sort(key=key)
            e = {}
            for i in range(len(X)):
                for j in range(i):
                    z = padd(pmul(pa(X[i]), pa(Y[j])), pmul(pa(X[j]), pa(Y[i])), -1)
                    e = padd(e, pmul(z, z))
            return d == e
        except Unknown:
            return False

    def fit(s, f, nid, v, t):
        if t in FL or t not in W:
            return v
        lo, hi = trange(t)
        if v.lo >= lo and v.hi <= hi:
            return v
        if W[t][0] >= 64:
            return N(v.p, max(v.lo, lo) if W[t][1] or v.lo >= 0 else v.lo, v.hi if v.hi != INF else hi, t)
        s.wrap(f, nid, v, t, "arithmetic")
        return N(pa(("wrap", W[t][0], pk(v.p))), lo, hi, t)

    # ---- expressions
    def load(s, ptr, idx, env, t, f, nid):
        if isinstance(ptr, Obj):
            ptr = Ptr(ptr.b, {}, ptr.t)
        if isinstance(ptr, Arr):
            ptr = Ptr(ptr.k, {}, ptr.t)
        if isinstance(ptr, Lut):
            k = pconst(idx.p)
            if k is not None:
                if not 0 <= k < len(ptr.v):
                    raise Unknown("table index")
                return N(pc(ptr.v[int(k)]), ptr.v[int(k)], ptr.v[int(k)], ptr.t)
            if len(ptr.v) == 256 and idx.lo >= 0 and idx.hi <= 255:
                if tuple(ptr.v) == POP8:
                    return N(s.pop(idx.p), 0, 8, ptr.t)
            return N(pa(("table", ptr.v, pk(idx.p))), min(ptr.v), max(ptr.v), ptr.t)
        o = padd(ptr.o, idx.p)
        if isinstance(ptr.b, tuple) and ptr.b[0] == "arr":
            k = pconst(o)
            a = env.get(ptr.b)
            if a is None or k is None or int(k) not in a:
                # a read of an element that was never assigned
                if a is not None and k is not None:
                    return N(pa(("unset", ptr.b, int(k))), *trange(ptr.t), ptr.t)
                raise Unknown("array element")
            return a[int(k)]
        return N(pa(("in", ptr.b, pk(o))), *trange(ptr.t), ptr.t)

    def pop(s, p):
        return pa(("pop", pk(p)))

    def store(s, f, nid, env, v):
        n = f.nodes[nid]
        while n["k"] in ("ParenExpr", "ImplicitCastExpr"):
            nid = n["ch"][0]
            n = f.nodes[nid]
        if n["k"] == "DeclRefExpr":
            t = base(n["t"])
            if isinstance(v, (bool, tuple)) and v != NULL and t in W and t != "bool":
                v = s.num(v)
            if t == "bool":
                v = s.tobool(v)
            env[n["d"]] = s.conv(f, nid, v, t) if isinstance(v, N) and (t in W or t in FL) else v
            return env[n["d"]]
        if n["k"] == "ArraySubscriptExpr" or n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("[]", "()"):
            ch = n["ch"] if n["k"] == "ArraySubscriptExpr" else n["ch"][1:]
            b, i = s.ev(f, ch[0], env), s.num(s.ev(f, ch[1], env))
        elif n["k"] == "UnaryOperator" and n["op"] == "*":
            b, i = s.ev(f, n["ch"][0], env), N({}, 0, 0, "int")
        else:
            raise Unknown("store")
        if isinstance(b, Arr):
            b = Ptr(b.k, {}, b.t)
        if not isinstance(b, Ptr) or not (isinstance(b.b, tuple) and b.b[0] == "arr"):
            raise Unknown("store through a pointer")
        k = pconst(padd(b.o, i.p))
        if k is None:
            raise Unknown("store at an unknown index")
        v = s.conv(f, nid, s.num(v), b.t)
        env[b.b] = dict(env[b.b])
        env[b.b][int(k)] = v
        return v

    def ev(s, f, nid, env):
        n = f.nodes[nid]
        k = n["k"]
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            if k == "CXXBoolLiteralExpr":
                return bool(n["c"])
            c = int(n["c"])
            return N(pc(c), c, c, base(n["t"]))
        if k == "FloatingLiteral":
            v = n.get("c", n.get("v"))
            try:
                q = Fraction(float(v)).limit_denominator(10 ** 12)
            except Exception:
                raise Unknown("literal")
            return N(pc(q), q, q, base(n["t"]))
        if "c" in n and k not in ("CXXOperatorCallExpr",) and isinstance(n["c"], int) and base(n.get("t", "")) in W:
            c = int(n["c"])
            return bool(c) if base(n["t"]) == "bool" else N(pc(c), c, c, base(n["t"]))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "FullExpr"):
            return s.ev(f, n["ch"][0], env)
        if k == "DeclRefExpr":
            if n["d"] in env:
                return env[n["d"]]
            raise Unknown("variable " + n.get("n", "?"))
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"):
            ck = n.get("ck", "")
            v = s.ev(f, n["ch"][0], env)
            t = base(n["t"])
            if ck == "NullToPointer":
                return NULL
            if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
                return s.tobool(v)
            if ck == "ArrayToPointerDecay":
                return v
            if isinstance(v, (bool, tuple)) and v != NULL:
                if t == "bool":
                    return v
                if t in W or t in FL:
                    return s.conv(f, nid, s.num(v), t)
                return v
            if isinstance(v, N) and (t in W or t in FL):
                if k == "CXXReinterpretCastExpr":
                    if t in W and v.t in W and W[t][0] == W[v.t][0]:
                        if v.lo >= trange(t)[0] and v.hi <= trange(t)[1]:
                            return N(v.p, v.lo, v.hi, t)
                        return N(pa(("bits", W[t][0], pk(v.p))), *trange(t), t)
                    raise Unknown("reinterpretation")
                return s.conv(f, nid, v, t)
            if isinstance(v, (Ptr, Obj, Arr)) and k == "CXXReinterpretCastExpr":
                raise Unknown("reinterpretation")
            return v
        if k in ("ConditionalOperator",):
            c = s.cond(f, n["ch"][0], env)
            if c is True:
                return s.ev(f, n["ch"][1], env)
            if c is False:
                return s.ev(f, n["ch"][2], env)
            a, b = s.ev(f, n["ch"][1], env), s.ev(f, n["ch"][2], env)
            return s.select(c, a, b)
        if k == "UnaryOperator":
            op = n["op"]
            if op == "!":
                return c_not(s.cond(f, n["ch"][0], env))
            if op in ("++", "--", "post++", "post--"):
                old = s.ev(f, n["ch"][0], env)
                one = N(pc(1), 1, 1, "int")
                post = n.get("post") or op.startswith("post")
                k = pconst(old.p) if isinstance(old, N) else None
                if k == 0 and "-" in op and old.t in W and not W[old.t][1]:      # a counter run down to zero: the wrapped value is defined
                    k = (1 << W[old.t][0]) - 1
                    new = N(pc(k), k, k, old.t)
                    s.store(f, n["ch"][0], env, new)
                    return old if post else new
                new = s.arith(f, nid, "+" if "+" in op else "-", old, one, n["t"])
                s.store(f, n["ch"][0], env, new)
                return old if post else new
            if op == "-":
                v = s.num(s.ev(f, n["ch"][0], env))
                return s.fit(f, nid, N(neg(v.p), -v.hi, -v.lo, base(n["t"])), base(n["t"]))
            if op == "+":
                return s.ev(f, n["ch"][0], env)
            if op == "~" and base(n["t"]) == "int":
                return s.bitop("^", s.num(s.ev(f, n["ch"][0], env)), N(pc(-1), -1, -1, "int"), "int")
            if op == "*":
                b = s.ev(f, n["ch"][0], env)
                if isinstance(b, Obj):
                    return b
                return s.load(b, N({}, 0, 0, "int"), env, n["t"], f, nid)
            if op == "&":
                c = f.nodes[n["ch"][0]]
                while c["k"] == "ParenExpr":
                    c = f.nodes[c["ch"][0]]
                if c["k"] == "ArraySubscriptExpr" or c["k"] == "CXXOperatorCallExpr" and c.get("op") == "[]":
                    ch = c["ch"] if c["k"] == "ArraySubscriptExpr" else c["ch"][1:]
                    b, i = s.ev(f, ch[0], env), s.num(s.ev(f, ch[1], env))
                    if isinstance(b, (Obj,)):
                        b = Ptr(b.b, {}, b.t)
                    return s.arith(f, nid, "+", b, i, n["t"])
                raise Unknown("address")
            raise Unknown("operator " + op)
        if k == "BinaryOperator":
            op = n["op"]
            if op == "=":
                v = s.ev(f, n["ch"][1], env)
                return s.store(f, n["ch"][0], env, v)
            if op == ",":
                s.ev(f, n["ch"][0], env)
                return s.ev(f, n["ch"][1], env)
            if op in ("&&", "||"):
                a = s.cond(f, n["ch"][0], env)
                if op == "&&" and a is False or op == "||" and a is True:
                    return a
                b = s.cond(f, n["ch"][1], env)
                return c_and(a, b) if op == "&&" else c_or(a, b)
            a, b = s.ev(f, n["ch"][0], env), s.ev(f, n["ch"][1], env)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)) and a != NULL and b != NULL and op in ("==", "!="):
                    x = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
                    return x if op == "==" else c_not(x)
                return s.cmp(op, a, b)
            return s.arith(f, nid, op, a, b, n["t"])
        if k == "CompoundAssignOperator":
            op = n["op"][:-1]
            a, b = s.ev(f, n["ch"][0], env), s.ev(f, n["ch"][1], env)
            t = base(n["t"])
            if t in W and t != "bool" and isinstance(a, N) and not isinstance(b, (Ptr,)):
                bb = s.num(b)
                if bb.t in FL:
                    ct = bb.t
                else:
                    ct = t if W[t][0] >= 32 else "int"
                    if bb.t in W and W[bb.t][0] > W[ct][0]:
                        ct = bb.t
                b = bb
            else:
                ct = t
            v = s.arith(f, nid, op, a, b, ct)
            if isinstance(v, N):
                v = s.conv(f, nid, v, t) if t in W or t in FL else v
            return s.store(f, n["ch"][0], env, v)
        if k == "ArraySubscriptExpr":
            b, i = s.ev(f, n["ch"][0], env), s.ev(f, n["ch"][1], env)
            if isinstance(b, N):
                b, i = i, b
            return s.load(b, s.num(i), env, n["t"], f, nid)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return s.callx(f, nid, n, env)
        if k == "MemberExpr":
            b = s.ev(f, n["ch"][0], env)
            if n.get("n") in ("val", "_M_elems") and isinstance(b, (Obj, Arr)):
                return b
            raise Unknown("member")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n["ch"]) == 1:
                return s.ev(f, n["ch"][0], env)
            raise Unknown("construction")
        if k == "UnaryExprOrTypeTraitExpr" and "c" in n:
            return N(pc(n["c"]), n["c"], n["c"], "unsigned long")
        raise Unknown("expression " + k)

    def select(s, c, a, b):
        """the value of c ? a : b, recognising absolute values, maxima and minima"""
        if isinstance(a, N) and isinstance(b, N) and isinstance(c, tuple):
            pos, zero = None, None                            # x>0 ? x : 1 with a natural number x
            if c[0] == "lt" and len(c) == 2:
                pos, zero = neg(unk(c[1])), (a, b)
            elif c[0] == "not" and c[1][0] in ("eq", "lt"):
                pos, zero = unk(c[1][1]) if c[1][0] == "eq" else neg(unk(c[1][1])), (a, b) if c[1][0] == "eq" else (b, a)
            elif c[0] == "eq":
                pos, zero = unk(c[1]), (b, a)
            if pos is not None and pconst(zero[1].p) == 1 and (pos == zero[0].p or neg(pos) == zero[0].p and c[0] != "lt") and zero[0].lo >= 0 and zero[0].t in W:
                return s.mx("max", zero[0], zero[1])
        if isinstance(a, N) and isinstance(b, N) and isinstance(c, tuple) and c[0] in ("lt", "not"):
            cc = c[1] if c[0] == "not" else c
            if cc[0] == "lt":
                q = unk(cc[1])
                x, y = (a, b) if c[0] == "lt" else (b, a)     # q<0 ? x : y
                if x.p == neg(y.p) and (y.p == q or x.p == q):
                    if y.p == q:
                        return s.abs_(y)
                    return N(neg(s.abs_(x).p), -s.abs_(x).hi, 0, a.t)
                d = padd(x.p, y.p, -1)
                if d == q:                                    # x<y ? x : y
                    return s.mx("min", x, y)
                if d == neg(q):
                    return s.mx("max", x, y)
        return s.ite(c, a, b)

    def abs_(s, v):
        if v.lo >= 0:
            return v
        k = pconst(v.p)
        if k is not None:
            return N(pc(abs(k)), abs(k), abs(k), v.t)
        if v.hi <= 0:
            return N(neg(v.p), -v.hi, -v.lo, v.t)
        return N(pa(("abs", sgn(v.p))), 0, max(-v.lo, v.hi), v.t)

    def mx(s, w, a, b):
        ka, kb = pconst(a.p), pconst(b.p)
        f = max if w == "max" else min
        if ka is not None and kb is not None:
            return N(pc(f(ka, kb)), f(ka, kb), f(ka, kb), a.t)
        if a.lo >= b.hi:
            return a if w == "max" else b
        if b.lo >= a.hi:
            return b if w == "max" else a
        return N(pa((w,) + tuple(sorted((pk(a.p), pk(b.p)), key=repr))), f(a.lo, b.lo), f(a.hi, b.hi), a.t)

    def callx(s, f, nid, n, env):
        fn = n.get("fn", "")
        short = fn.split("::")[-1]
        ch = n["ch"]
        if k_oper(n):
            a = [s.ev(f, c, env) for c in ch[1:]]
            if n.get("op") in ("[]", "()") and isinstance(a[0], (Obj, Arr, Ptr, Lut)) and len(a) == 2:
                return s.load(a[0], s.num(a[1]), env, n["t"], f, nid)
            raise Unknown("operator call " + fn)
        if n["k"] == "CXXMemberCallExpr":
            callee = f.nodes[ch[0]]
            obj = s.ev(f, callee["ch"][0], env) if callee["ch"] else None
            if short in ("data", "begin", "cbegin") and isinstance(obj, (Obj, Arr)):
                return Ptr(obj.b if isinstance(obj, Obj) else obj.k, {}, obj.t)
            if short in ("at", "operator[]", "operator()") and isinstance(obj, (Obj, Arr)):
                return s.load(obj, s.num(s.ev(f, ch[1], env)), env, n["t"], f, nid)
            raise Unknown("member call " + fn)
        if short == "epsilon" and "numeric_limits" in fn:
            return N({}, Fraction(1, 1 << 60), Fraction(1, 1 << 10), base(n["t"]), True)
        args = [s.ev(f, c, env) for c in ch[1:]]
        if short in ("abs", "fabs", "fabsf", "labs", "llabs"):
            v = s.num(args[0])
            r = s.abs_(v)
            return s.fit(f, nid, N(r.p, r.lo, r.hi, base(n["t"])), base(n["t"]))
        if short in ("sqrt", "sqrtf"):
            v = s.num(args[0])
            return N(pa(("sqrt", pk(v.p))), 0, INF if v.hi == INF else Fraction(v.hi ** 0.5) + 1 if v.hi > 0 else 0, base(n["t"]))
        if short in ("max", "min") and len(args) == 2:
            return s.mx(short, s.num(args[0]), s.num(args[1]))
        if short in ("_mm_popcnt_u32", "_mm_popcnt_u64", "__builtin_popcount", "__builtin_popcountl", "__builtin_popcountll", "popcount") and fn not in s.P_names():
            v = s.num(args[0])
            if v.lo < 0:
                raise Unknown("bits of a signed value")
            w = 64 if v.hi == INF else int(v.hi).bit_length()
            lim = 32 if short in ("_mm_popcnt_u32", "__builtin_popcount") else 64
            if w > lim:
                s.wrap(f, nid, v, "%d bits" % lim, "bit count")
            return N(s.pop(v.p), 0, w, base(n["t"]))
        g = s.P.get(n.get("fk"), f.tu)
        if g is None or g.d.get("body") is None:
            raise Unknown("call " + fn)
        if short in ("abs", "max", "min", "sqrt", "round", "floor") and not fn.startswith("lv::"):
            raise Unknown("call " + fn)
        return s.call(g, [a if not isinstance(a, Arr) or "array" in p["t"] or "Vec" in p["t"] else Ptr(a.k, {}, a.t) for a, p in zip(args, g.params)], this=None) if not any(isinstance(a, Arr) or isinstance(a, Ptr) and isinstance(a.b, tuple) for a in args) else s.call_arr(f, g, args, env)

    def call_arr(s, f, g, args, env):
        """call with local arrays: the callee sees their current contents"""
        e = {}
        vals = []
        for a, p in zip(args, g.params):
            if isinstance(a, Arr):
                e[a.k] = env[a.k]
                vals.append(Ptr(a.k, {}, a.t) if "*" in p["t"] else a)
            elif isinstance(a, Ptr) and isinstance(a.b, tuple) and a.b[0] == "arr":
                e[a.b] = env[a.b]
                vals.append(a)
            else:
                vals.append(a)
        env2 = dict(e)
        for p, a in zip(g.params, vals):
            env2[p["id"]] = a
        env2["$pc"] = ()
        env2["$this"] = None
        s.depth += 1
        try:
            if s.depth > 24:
                raise Unknown("recursion")
            rets = []
            s.stmt(g, g.d["body"], env2, rets, None)
        finally:
            s.depth -= 1
        if not rets:
            raise Unknown("no value returned")
        v = rets[-1][1]
        for pcnd, r in reversed(rets[:-1]):
            c = True
            for x in pcnd:
                c = c_and(c, x)
            v = s.ite(c, r, v)
        if isinstance(v, N) and g.rt and base(g.rt) in W and base(g.rt) != "bool":
            v = s.conv(g, None, v, g.rt)
        return v

    def P_names(s):
        return ("lv::popcount",)


def k_oper(n):
    return n["k"] == "CXXOperatorCallExpr"
