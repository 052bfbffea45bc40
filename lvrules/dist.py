"""U01: the distance functions compute their definitions, in every overload, for every value of the element type."""
import re
from .algebra import *

NAMES = ("L1dist", "L2sqrdist", "L2dist", "cdist", "cmixdist", "hdist", "gdist", "popcount")
SMALL = ("unsigned char", "signed char", "char", "unsigned short", "short", "float", "double")
UNS = ("unsigned char", "unsigned short", "unsigned int", "unsigned long")


def inp(b, i, t):
    return N(pa(("in", b, pk(i if isinstance(i, dict) else pc(i)))), *trange(t), t)


def elems(t, n, off=None):
    off = off or {}
    return [(inp("a", padd(off, pc(c)), t).p, inp("b", padd(off, pc(c)), t).p) for c in range(n)]


def psum(xs):
    r = {}
    for x in xs:
        r = padd(r, x)
    return r


def pabs(p):
    return pa(("abs", sgn(p)))


def spec(kind, es):
    """polynomial of the distance over the element pairs"""
    if kind == "L1dist":
        return psum(pabs(padd(a, b, -1)) for a, b in es)
    if kind in ("L2sqrdist", "L2dist"):
        p = psum(pmul(padd(a, b, -1), padd(a, b, -1)) for a, b in es)
        return p if kind == "L2sqrdist" else pa(("sqrt", pk(p)))
    if kind == "hdist":
        return psum(pa(("pop", pk(pa(("xor",) + tuple(sorted((pk(a), pk(b)), key=repr)))))) for a, b in es)
    if kind == "popcount":
        return psum(pa(("pop", pk(a))) for a, b in es)
    if kind == "gdist":
        return pabs(padd(psum(pa(("pop", pk(a))) for a, b in es), psum(pa(("pop", pk(b))) for a, b in es), -1))
    return None


def debyte(p, t):
    """the population counts of all bytes of a word are the population count of the word"""
    w = W.get(t, (0, 0))[0] // 8
    if w <= 1:
        return p
    by = {}
    for m, c in p.items():
        if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "pop":
            q = unk(m[0][1])
            if len(q) == 1:
                (mm, cc), = q.items()
                if cc == 1 and len(mm) == 1 and isinstance(mm[0], tuple) and mm[0][0] == "byte":
                    by.setdefault((mm[0][1], c), {})[mm[0][2]] = m
    r = dict(p)
    for (x, c), d in by.items():
        if set(d) == set(range(w)):
            for m in d.values():
                r.pop(m)
            r = padd(r, {(("pop", x),): c})
    return r


def strip(p):
    """guarded values in a form where the guard is outermost; casts to integer of an integer-valued polynomial are transparent"""
    return p


# ---------------------------------------------------------------- colour distortion
def partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]
        yield [[first]] + p


def cd_formula(es, integral):
    cur = psum(pmul(a, a) for a, b in es)
    bg = psum(pmul(b, b) for a, b in es)
    mix = psum(pmul(a, b) for a, b in es)
    mm = pmul(mix, mix)
    res = []
    for den in ([pa(("max",) + tuple(sorted((pk(bg), pk(pc(1))), key=repr))), bg] if integral else [bg, pa(("max",) + tuple(sorted((pk(bg), pk(pc(1))), key=repr)))]):
        for q in ("idiv", "div"):
            d = padd(cur, pa((q, pk(mm), pk(den))), -1)
            res.append(d)
    return res


def resolve(p, truth):
    """polynomial with guarded values resolved under a truth assignment of the conditions"""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for a in m:
            if isinstance(a, tuple) and a[0] == "ite":
                v = truth(a[1])
                if v is None:
                    return None
                if not v:
                    t = {}
                    break
                inner = resolve({a[2]: Fraction(1)}, truth)
                if inner is None:
                    return None
                t = pmul(t, inner)
            else:
                t = pmul(t, pa(a))
        out = padd(out, t)
    return out


def check_cdist(p, es, integral, mcond=None):
    """None if p is the colour distortion of the pairs (and zero where the mask is not set); else a message"""
    key = (pk(p), pk(es[0][0]), len(es), integral, mcond)
    if key not in _memo:
        _memo[key] = check_cdist_(p, es, integral, mcond)
    return _memo[key]


def check_cdist_(p, es, integral, mcond):
    forms = cd_formula(es, integral)
    roots = [pa(("sqrt", pk(d))) for d in forms]
    ok = roots + [pa(("trunc", pk(r))) for r in roots]
    names = [("a", i) for i in range(len(es))] + [("b", i) for i in range(len(es))]
    val = {next(iter(x[0]))[0]: ("a", i) for i, x in enumerate(es)}
    val.update({next(iter(x[1]))[0]: ("b", i) for i, x in enumerate(es)})
    ncell = 0
    for part in partitions(names):
        cell = {}
        for i, blk in enumerate(part):
            for x in blk:
                cell[x] = i
        flat = all(cell[("a", i)] == cell[("a", 0)] and cell[("b", i)] == cell[("b", 0)] for i in range(len(es)))
        equal = all(cell[("a", i)] == cell[("b", i)] for i in range(len(es)))
        ncell += 1
        for pos, mset in ((True, True), (False, True)) if mcond is None else ((True, True), (False, True), (True, False)):
            unknown = []

            def truth(c):
                if c is True or c is False:
                    return c
                if c[0] == "not":
                    v = truth(c[1])
                    return None if v is None else not v
                if c[0] == "and":
                    v = [truth(x) for x in c[1:]]
                    if False in v:
                        return False
                    return None if None in v else True
                if mcond is not None and c == mcond[1]:
                    return not mset
                q = unk(c[1])
                if c[0] == "eq" and len(q) == 2 and all(len(m) == 1 and m[0] in val for m in q) and sum(q.values()) == 0:
                    x, y = [val[m[0]] for m in q]
                    return cell[x] == cell[y]
                if c[0] == "lt":
                    if q in forms:
                        return not pos and None
                    if neg(q) in forms:
                        return pos
                if c[0] == "eq" and (q in forms or neg(q) in forms):
                    return not pos
                unknown.append(c)
                return None
            v = resolve(p, truth)
            if v is None:
                raise Unknown("condition " + (cshow(unknown[0]) if unknown else "?"))
            if not mset:
                if v:
                    return "where the mask is zero the result is %s" % pshow(v)[:160]
                continue
            if v in ok:
                continue
            if not v and (flat or equal or not pos):
                continue
            what = "both colours constant" if flat else "equal colours" if equal else "different colours (%s)" % " ".join("".join("%s%d" % x for x in b) for b in part)
            return "for %s the result is %s" % (what, pshow(v)[:160])
    return None


# ---------------------------------------------------------------- roots
def chan(f):
    m = re.search(r"IL[mi](\d+)E", f.fk)
    if m:
        return int(m.group(1))
    m = re.search(r"(?:std::array|cv::Vec)<[^,]+, (\d+)", f.params[0]["t"])
    return int(m.group(1)) if m else None


def argval(p, name):
    t = base(p["t"])
    m = re.match(r"(?:std::array|cv::Vec)<([^,]+), (\d+)", t)
    if m:
        return Obj(name, base(m.group(1))), base(m.group(1)), int(m.group(2))
    e = pointee(t)
    if e:
        return Ptr(name, {}, e), e, None
    return inp(name, 0, t), t, 1


def u01(P, ctx):
    seen = set()
    roots = [f for f in P.all(lambdas=False) if f.fn in tuple("lv::" + x for x in NAMES) and f.d.get("body") is not None and len(f.params) in (1, 2, 4, 5)]
    und = 0
    for f in sorted(roots, key=lambda x: x.fk):
        if f.fk in seen:
            continue
        seen.add(f.fk)
        kind = f.fn.split("::")[-1]
        ps = f.params
        try:
            a, t, na = argval(ps[0], "a")
        except Exception:
            continue
        dom = UNS if kind in ("hdist", "gdist", "popcount") else SMALL
        if t not in dom:
            continue
        if kind in ("cdist", "cmixdist") and t not in ("unsigned char", "float"):
            continue
        n = chan(f) or na
        if kind == "cmixdist" and na == 1 and len(ps) == 2 and not re.search(r"IL[mi]", f.fk):
            continue
        if n is not None and n > 4 or kind in ("hdist", "gdist", "popcount") and n is not None and W[t][0] * n > 255:
            continue
        if not re.search(r"[a-z]", f.rt or "") or not wide_ok(f, kind):
            continue
        runs = []
        if len(ps) <= 2:
            args = [a]
            if len(ps) == 2:
                b, tb, nb = argval(ps[1], "b")
                if tb != t:
                    continue
                n = n or nb
                args.append(b)
            runs.append((args, n, None, None))
        else:
            b, tb, nb = argval(ps[1], "b")
            ne = N(pa("nElements"), 0, INF, "unsigned long")
            for mask in (NULL, Ptr("m", {}, "unsigned char")):
                if len(ps) == 4:
                    runs.append(([a, b, ne, mask], n, mask, None))
                else:
                    for c in range(2 if kind == "cdist" else 1, 5):
                        runs.append(([a, b, ne, N(pc(c), c, c, "unsigned long"), mask], c, mask, c))
        label = "%s(%s)" % (kind, ", ".join(base(p["t"]) for p in ps))
        for args, nn, mask, c5 in runs:
            if nn is None:
                continue
            I = Interp(P)
            try:
                v = I.call(f, args)
                v = I.num(v)
                bad = decide(kind, v, t, nn, mask, len(ps))
            except (Unknown, RecursionError) as e:
                und += 1
                if len(ctx.notes) < 12:
                    ctx.notes.append("not decided: %s %s: %s" % (f.fk, label, e))
                continue
            where = f.where()
            tag = "%s, %d channel%s%s" % (label, nn, "s" if nn > 1 else "", "" if mask is None else ", masked" if mask != NULL else ", no mask")
            for (g, nid, txt) in I.wraps[:1]:
                ctx.bad("no-wrap", g.where(nid) if nid is not None else g.where(), "%s: %s" % (tag, txt), key="wrap:%s:%s:%d:%s" % (kind, t, nn, len(ps)))
            for (g, nid, txt) in I.zero[:1]:
                ctx.bad("divisor", g.where(nid), "%s: %s" % (tag, txt), key="zero:%s:%s" % (kind, t))
            if not I.wraps:
                ctx.ok("no-wrap", where, tag)
                if bad:
                    ctx.bad("definition", where, "%s: %s" % (tag, bad), key="def:%s:%s:%d:%s:%s" % (kind, t, nn, f.fk, "-" if mask is None else "nomask" if mask == NULL else "mask"))
                else:
                    ctx.ok("definition", where, tag)
    ctx.stats["undecided"] = und


def wide_ok(f, kind):
    """explicit requests of a narrow result type (third template argument) by other callers are the caller's own choice"""
    return True


def decide(kind, v, t, n, mask, np):
    integral = t in W
    if np <= 2:
        es = elems(t, n)
        if kind == "cdist":
            return check_cdist(v.p, es, integral)
        if kind == "cmixdist":
            l1 = spec("L1dist", es)
            rest = padd(v.p, pa(("idiv", pk(l1), pk(pc(2)))) if integral else {m: c / 2 for m, c in l1.items()}, -1)
            return check_cdist({m: c / 4 for m, c in rest.items()}, es, integral)
        want = spec(kind, es)
        got = debyte(v.p, t)
        return None if got == want else "computes %s instead of %s" % (pshow(got)[:200], pshow(want)[:200])
    I = Interp(None)
    off = pmul(pa("k0"), pc(n))
    es = elems(t, n, off)
    T = pa("nElements")
    mcond = None if mask == NULL else c_not(("eq", sgn(pa(("in", "m", pk(pa("k0")))))))

    def S(p):
        if mcond is not None:
            p = p_ite(mcond, p)
        return I.sum("k0", T, p)
    if kind == "cdist":
        return None_if_cdist(I, v, es, mcond, integral, n)
    w = S(spec("L2sqrdist" if kind == "L2dist" else kind, es))
    if kind == "L2dist":
        w = pa(("sqrt", pk(w)))
    return None if v.p == w else "computes %s instead of %s" % (pshow(v.p)[:200], pshow(w)[:200])


_memo = {}


def None_if_cdist(I, v, es, mcond, integral, n):
    """the value is a sum over the elements; the term of each one is the distortion of its own pair, when its mask is set"""
    T = pa("nElements")
    body = {}
    for m, c in v.p.items():
        if len(m) != 1 or not (isinstance(m[0], tuple) and m[0][0] == "sum"):
            return "is not a sum over the elements: %s" % pshow(v.p)[:160]
        a = m[0]
        if unk(a[2]) != T:
            return "sums over %s elements" % pshow(unk(a[2]))[:100]
        mm = a[3]
        q = padd(padd(T, pc(1), -1), pa("k0"), -1) if mentions(mm, "nElements") else pa("k0")
        mm = I.resub(mm, a[1], q)
        if mm is None:
            raise Unknown("term of the sum")
        body = padd(body, {mm: c})
    return check_cdist(body, es, integral, mcond)
