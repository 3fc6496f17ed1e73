"""Curves of fixed structure: degree and knot multiplicities are constants, knot values, points and weights are symbols.
Every loop then has a constant number of rounds and the value graph is a closed term."""
from itertools import combinations
from math import comb
from .common import *
from .steps import fork
from ..simp import tidy, split_atom, cases

C, S = NS + "Curve", NS + "Surface"
GAP = Fraction(1, 500000)


class Shape:
    def __init__(self, X, p, mults, name="P"):
        self.X, self.p, self.mults = X, p, tuple(mults)
        self.u = []
        prev = ZERO
        for i in range(len(mults)):
            v = X.real("u%d" % (i + 1), self.value(i))
            X.facts.append(lt(add(prev, const(GAP)), v))
            self.u.append(v)
            prev = v
        X.facts.append(lt(add(prev, const(GAP)), ONE))
        self.k = knots(p, self.u, mults)
        self.n = p + 1 + sum(mults)
        self.pts = points(X, name, self.n)
        self.U, self.P = arr(self.k), vecs(self.pts)

    def value(self, i):
        def g(r, e):
            lo = e.syms["u%d" % i] if i else Fraction(0)
            if r.random() < 0.2:
                # close to its neighbour or to the end
                d = min(Fraction(r.randint(3, 9), 1) * GAP * r.choice([1, 10, 100, 1000]), (1 - lo) / 3)
                return lo + d if r.random() < 0.5 or i + 1 < len(self.mults) else 1 - d
            return lo + (1 - lo) * Fraction(r.randint(2, 9), 20)
        return g

    def curve(self):
        return obj(self.X, C, Degree=const(self.p), Knots=kv(self.X, self.U), ControlPoints=self.P)

    def span(self):
        """Index of the first knot span that is not empty and all others."""
        return [i for i in range(self.p, self.n) if self.k[i] is not self.k[i + 1]]


def study(ctx, body, *args):
    """body on all paths at once; if that ends open, path by path over the first decisions, for violations only."""
    before = len(ctx.items)
    body(ctx, *args)
    fresh_ = ctx.items[before:]
    if ctx.pick or any(i["status"] == "refuted" for i in ctx.items) or not any(i["status"] == "open" for i in fresh_):
        return
    todo, n = [()], 0
    while todo and n < 40:
        sc = todo.pop(0)
        n += 1
        ctx.script, at = sc, len(ctx.items)
        try:
            body(ctx, *args)
        finally:
            ctx.script = None
        got = ctx.items[at:]
        del ctx.items[at:]
        bad = [i for i in got if i["status"] == "refuted"]
        if bad:
            ctx.items += bad
            return
        if any("decision %d is open" % len(sc) in str(i["detail"]) for i in got) and len(sc) < 5:
            todo += [sc + (True,), sc + (False,)]


def knots(p, u, mults):
    return [ZERO] * (p + 1) + [v for v, m in zip(u, mults) for _ in range(m)] + [ONE] * (p + 1)


def points(X, name, n):
    out = []
    for i in range(n):
        c = [X.real("%s%d%s" % (name, i, a), lambda r, e: rreal(r)) for a in "xyz"] + [X.real("%s%dw" % (name, i), lambda r, e: rweight(r))]
        X.facts.append(lt(ZERO, c[3]))
        out.append(c)
    return out


def arr(v):
    return mk(AList, tuple(v), ("real",))


def vecs(v):
    return mk(AList, tuple(vec(list(c), 4, 1) for c in v), ("vec", 4, 1))


def hom(c):
    return [mul(x, c[3]) for x in c[:3]] + [c[3]]


def cart(h):
    return [div(x, h[3]) for x in h[:3]] + [h[3]]


def blossom(p, k, H, j, args):
    """Polar form of the piece on span j: control points H (homogeneous), knots k."""
    d = [H[j - p + i] for i in range(p + 1)]
    for r in range(1, p + 1):
        t = args[r - 1]
        for i in range(p, r - 1, -1):
            lo, hi = k[j - p + i], k[j + 1 + i - r]
            a = div(sub(t, lo), sub(hi, lo))
            d[i] = [add(mul(a, x), mul(sub(ONE, a), y)) for x, y in zip(d[i], d[i - 1])]
    return d[p]


def elevated(s, t):
    """Knots and points of the curve with its degree raised by t."""
    p, q = s.p, s.p + t
    k2 = knots(q, s.u, [m + t if m else 0 for m in s.mults])
    H = [hom(c) for c in s.pts]
    out = []
    for i in range(len(k2) - q - 1):
        args = k2[i + 1:i + q + 1]
        # a piece inside the support of the new point
        j2 = next(j for j in range(max(i, q), i + q + 1) if k2[j] is not k2[j + 1])
        j = next(j for j in s.span() if s.k[j] is k2[j2])
        acc = [ZERO] * 4
        for T_ in combinations(range(q), p):
            b = blossom(p, s.k, H, j, [args[x] for x in T_])
            acc = [add(x, y) for x, y in zip(acc, b)]
        out.append([div(x, const(comb(q, p))) for x in acc])
    return k2, out


def fixed_list(ctx, v, n, w):
    """The n elements of an array of a known size, or None."""
    if not isinstance(v, Arr) or cval(v.dims[0]) is None:
        return None
    return [v.get((const(i),), w) for i in range(int(cval(v.dims[0])))]


def curve_parts(ctx, c, f):
    """Degree, knots, points of a curve value with constant sizes."""
    if not isinstance(c, Struct) or not c.has("Knots"):
        return None
    k = fixed_list(ctx, c.get("Knots").get(knot_field(ctx.prog)), None, f) if isinstance(c.get("Knots"), Struct) else None
    P = fixed_list(ctx, c.get("ControlPoints"), None, f)
    if k is None or P is None:
        return None
    return c.get("Degree"), k, P


def comps(v):
    return [component(v, (c,)) for c in range(4)]


def demand_curve(ctx, rule, X, R, c, degree, ks, Q, pre=TRUE, facts=None):
    """c is the curve of that degree with these knots and homogeneous points."""
    f = (facts or R.facts0).extend([pre])
    if not R.ok:
        ctx.add("open", rule, where(R.fn), R.error)
        return
    g = curve_parts(ctx, c, f)
    if g is None:
        ctx.add("open", rule, where(R.fn), "result of an unknown size")
        return
    d, k, P = g
    demand(ctx, rule + ": degree, number of knots and points", X, R, vec([d, const(len(k)), const(len(P))]), [const(degree), const(len(ks)), const(len(Q))], pre=pre, facts=facts, kind="size")
    if len(k) != len(ks) or len(P) != len(Q):
        return
    demand(ctx, rule + ": knots", X, R, vec(k), ks, pre=pre, facts=facts)
    demand(ctx, rule + ": points and weights", X, R, vec([x for v in P for x in comps(v)]), [x for h in Q for x in cart(h)], pre=pre, facts=facts)


def inside(ctx, what, X, R):
    demand_bounds(ctx, what + ": only existing elements are accessed", X, R)


def family(most, degrees, spans):
    """(degree, multiplicities) up to a bound."""
    out = []
    for p in degrees:
        ms = [()]
        for n in range(1, spans + 1):
            ms += tuples(n, min(p, most))
        out += [(p, m) for m in ms]
    return out


def tuples(n, top):
    if n == 0:
        return [()]
    return [(a,) + r for a in range(1, top + 1) for r in tuples(n - 1, top)]


def g_elevate(ctx):
    fam = family(3, (1, 2, 3), 2) + [(3, (1, 1, 1)), (4, (1,)), (4, (2, 1))] if ctx.tier == "quick" else family(4, (1, 2, 3, 4), 2) + family(2, (2, 3), 3)
    for p, m in fam:
        for t in (1, 2) if p < 4 else (1,):
            study(ctx, elevate_one, p, m, t)


def elevate_one(ctx, p, m, t):
    X = Inputs(ctx.prog)
    s = Shape(X, p, m)
    R = call(ctx, X, C + "::ElevateDegree", s.curve(), [const(t)], unroll=60)
    inside(ctx, "elevating degree %d, multiplicities %s, by %d" % (p, list(m), t), X, R)
    k2, Q = elevated(s, t)
    demand_curve(ctx, "degree %d with interior multiplicities %s elevated by %d" % (p, list(m), t), X, R, R.ret, p + t, k2, Q)


WEIGHTS = [Fraction(a, b) for a, b in ((1, 1), (3, 2), (2, 1), (1, 2), (4, 5), (5, 3), (7, 4), (1, 3), (9, 5), (2, 3), (8, 7), (1, 5))]
VALUES = [Fraction(a, b) for a, b in ((2, 7), (3, 5), (6, 7))]


class Plain(Shape):
    """Knots and weights are numbers too, only the positions are symbols."""
    def __init__(self, X, p, mults):
        self.X, self.p, self.mults = X, p, tuple(mults)
        self.u = [const(VALUES[i]) for i in range(len(mults))]
        self.k = knots(p, self.u, mults)
        self.n = p + 1 + sum(mults)
        self.pts = [[X.real("P%d%s" % (i, a), lambda r, e: rreal(r)) for a in "xyz"] + [const(WEIGHTS[i])] for i in range(self.n)]
        self.U, self.P = arr(self.k), vecs(self.pts)


def refined(s, mults):
    """Knots and homogeneous points of the same curve with these interior multiplicities."""
    k2, p = knots(s.p, s.u, mults), s.p
    H = [hom(c) for c in s.pts]
    pos = ([ZERO] + s.u + [ONE]).index
    out = []
    for q in range(len(k2) - p - 1):
        j2 = next(j for j in range(max(q, p), q + p + 1) if k2[j] is not k2[j + 1])
        j = [j for j in s.span() if pos(s.k[j]) <= pos(k2[j2])][-1]
        out.append(blossom(p, s.k, H, j, k2[q + 1:q + p + 1]))
    return k2, out


def gate(v):
    """A literal of an outermost gate condition."""
    for m, _ in v.terms:
        for a, _e in m:
            if a.kind == "ite":
                c = a.args[0]
                while c.kind in ("and", "or", "not"):
                    c = c.args[0]
                return c
    return None


def outcomes(v, f, depth=6, lits=()):
    """The constants a gated whole number can be, each with the decisions it comes with."""
    v = tidy(v, f)
    c = cval(v)
    if c is not None:
        return [(c, lits)]
    a = gate(v)
    if a is None or depth == 0:
        return None
    out = []
    for x in (a, bnot(a)):
        g = f.extend([x])
        if g.infeasible([]):
            continue
        o = outcomes(v, g, depth - 1, lits + (x,))
        if o is None:
            return None
        out += o
    return out


def removed(ks, u, t):
    """ks without t copies of u."""
    out = []
    for v in ks:
        if v is u and t:
            t -= 1
        else:
            out.append(v)
    return out


def tidied(v, f):
    """A curve value with its gates decided."""
    if isinstance(v, Struct):
        return mk(Struct, v.args[0], tuple((n, tidied(x, f)) for n, x in v.args[1]))
    return tidy(v, f) if isinstance(v, (Poly, Arr)) else v


def g_remove(ctx):
    """A curve with a knot inserted `a` more times than its shape needs; up to `times` copies are asked back."""
    fam = [(1, (0,), 0, 1, 1), (2, (0,), 0, 1, 1), (2, (0,), 0, 2, 2), (2, (0, 1), 0, 1, 1), (2, (1,), 0, 1, 1), (2, (1,), 0, 1, 2), (2, (1, 1), 1, 0, 1),
           (3, (0, 1), 0, 1, 1), (3, (1, 0), 1, 2, 2), (3, (0, 1), 0, 3, 3), (3, (1, 1), 1, 2, 3), (3, (0, 2), 0, 2, 1), (3, (1,), 0, 0, 1), (3, (2,), 0, 0, 2), (3, (0,), 0, 2, 5),
           (4, (1, 0), 1, 2, 2), (4, (0, 1), 0, 3, 2)]
    if ctx.tier != "quick":
        fam += [(3, (1, 0, 1), 1, 2, 2), (3, (2, 1, 1), 1, 1, 2), (4, (2, 0), 1, 4, 4), (4, (0, 3), 0, 3, 3), (5, (0, 1), 0, 3, 3), (5, (1, 0), 1, 5, 5)]
    for p, m, i, a, times in fam:
        X = Inputs(ctx.prog)
        s = Plain(X, p, m)
        u = s.u[i]
        k2, Q = refined(s, [x + (a if j == i else 0) for j, x in enumerate(m)])
        c = obj(X, C, Degree=const(p), Knots=kv(X, arr(k2)), ControlPoints=vecs([cart(h) for h in Q]))
        tol = X.real("tol", lambda r, e: F(r.choice([1, 2, 5]), r.choice([1000, 100, 10])) * r.choice([1, 1, 100000000]))
        X.facts.append(lt(ZERO, tol))
        R = call(ctx, X, C + "::RemoveKnot", c, [u, const(times), tol], unroll=60)
        inside(ctx, "removing up to %d of %d copies, degree %d" % (times, m[i] + a, p), X, R)
        rule = "removing up to %d of %d copies of a knot (%d of them redundant), degree %d, other multiplicities %s" % (times, m[i] + a, a, p, list(m[:i] + m[i + 1:]))
        if not R.ok or not isinstance(R.ret, Struct) or not R.ret.has("get1"):
            ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
            continue
        got, cnt = R.ret.get("get0"), R.ret.get("get1")
        most, sure = min(times, m[i] + a), min(times, a)
        demand(ctx, rule + ": at least the redundant and at most the requested and present copies go", X, R, vec([ite(lt(cnt, const(sure)), ONE, ZERO), ite(lt(const(most), cnt), ONE, ZERO)]), [ZERO, ZERO])
        outs = outcomes(cnt, R.facts0)
        if outs is None:
            ctx.add("open", rule, where(R.fn), "count of an unknown form")
            continue
        for t, lits in outs:
            t = int(t)
            if not 0 <= t <= most:
                continue
            # the same once more with these decisions taken
            Y = fork(X)
            Y.facts = list(X.facts) + list(lits)
            R = call(ctx, Y, C + "::RemoveKnot", c, [u, const(times), tol], unroll=60) if lits else R
            f = R.facts0
            g = tidied(R.ret.get("get0"), f) if R.ok and isinstance(R.ret, Struct) and R.ret.has("get0") else None
            what = rule + ", %d gone" % t
            if sure <= t <= a:
                k3, Q3 = refined(s, [x + (a - t if j == i else 0) for j, x in enumerate(m)])
                demand_curve(ctx, what, X, R, g, p, k3, Q3, facts=f)
                continue
            parts_ = curve_parts(ctx, g, f)
            if parts_ is None:
                ctx.add("open", what, where(R.fn), "result of an unknown size")
                continue
            d, k, P = parts_
            demand(ctx, what + ": degree, number of knots and points", X, R, vec([d, const(len(k)), const(len(P))]), [const(p), const(len(k2) - t), const(len(Q) - t)], facts=f, kind="size")
            if t >= sure and len(k) == len(k2) - t and len(P) == len(Q) - t:
                demand(ctx, what + ": knots", X, R, vec(k), removed(k2, u, t), facts=f)
                demand(ctx, what + ": end points are Cartesian and stay", X, R, vec(comps(P[0]) + comps(P[-1])), cart(Q[0]) + cart(Q[-1]), facts=f)


def g_bezier(ctx):
    fam = family(4, (1, 2, 3), 2) + [(2, (1, 1, 1)), (3, (1, 2, 1)), (4, (1,)), (4, (3, 1))]
    if ctx.tier != "quick":
        fam += family(4, (4,), 2) + [(3, (1, 1, 1)), (5, (2,))]
    for p, m in fam:
        study(ctx, bezier_one, p, m)


def bezier_one(ctx, p, m):
    X = Inputs(ctx.prog)
    s = Shape(X, p, m)
    R = call(ctx, X, C + "::ExtractBezier", s.curve(), [], unroll=60)
    inside(ctx, "Bezier extraction, degree %d, multiplicities %s" % (p, list(m)), X, R)
    rule = "Bezier pieces of degree %d with interior multiplicities %s" % (p, list(m))
    segs = fixed_list(ctx, R.ret, None, R.facts0) if R.ok else None
    if segs is None:
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown size")
        return
    k2, Q = refined(s, [p] * len(m))
    demand(ctx, rule + ": one piece per nonempty span", X, R, const(len(segs)), const(len(m) + 1), kind="size")
    if len(segs) != len(m) + 1:
        return
    for j, g in enumerate(segs):
        demand_curve(ctx, rule + ", piece %d" % (j + 1), X, R, g, p, [ZERO] * (p + 1) + [ONE] * (p + 1), Q[j * p:j * p + p + 1])


def inserts():
    """(degree, multiplicities, for each distinct value: copies to insert, order of the list)"""
    return [(1, (0,), [0]), (2, (0, 1), [0, 1]), (2, (1, 0), [1, 0, 1]), (3, (1, 1), [1, 0]), (3, (0, 1), [0, 0]), (2, (1,), []), (3, (0, 0), [1, 0]), (3, (2, 0), [1, 0])]


def g_insert(ctx):
    """Several values at once: the list overload and the repeated overload against the refined curve."""
    for p, m, order in inserts():
        study(ctx, insert_list, p, m, order)
    for p, m, i, t in ((1, (0,), 0, 1), (2, (0,), 0, 2), (2, (1, 1), 0, 1), (3, (0, 1), 0, 3), (3, (1, 1), 1, 2), (2, (1,), 0, 0), (4, (1,), 0, 2)):
        study(ctx, insert_times, p, m, i, t)


def insert_list(ctx, p, m, order):
    X = Inputs(ctx.prog)
    s = Shape(X, p, m)
    L = arr([s.u[i] for i in order])
    R = call(ctx, X, C + "::InsertKnot", s.curve(), [L], pt=["span"], unroll=60)
    inside(ctx, "inserting a list of %d values, degree %d, multiplicities %s" % (len(order), p, list(m)), X, R)
    k2, Q = refined(s, [x + order.count(i) for i, x in enumerate(m)])
    demand_curve(ctx, "inserting a list of %d values, degree %d, multiplicities %s, order %s" % (len(order), p, list(m), order), X, R, R.ret, p, k2, Q)


def insert_times(ctx, p, m, i, t):
    X = Inputs(ctx.prog)
    s = Shape(X, p, m)
    R = call(ctx, X, C + "::InsertKnot", s.curve(), [s.u[i], const(t)], pt=["double", "int"], unroll=60)
    inside(ctx, "inserting a value %d times, degree %d, multiplicities %s" % (t, p, list(m)), X, R)
    k2, Q = refined(s, [x + (t if j == i else 0) for j, x in enumerate(m)])
    demand_curve(ctx, "inserting a value %d times, degree %d, multiplicities %s" % (t, p, list(m)), X, R, R.ret, p, k2, Q)


class Sheet:
    """A surface of fixed structure; dirs[d] = (degree, multiplicities)."""
    def __init__(self, X, U, V, plain=False):
        self.X = X
        self.dir = []
        for nm, (p, m) in (("u", U), ("v", V)):
            o = Shape.__new__(Shape)
            o.X, o.p, o.mults, o.u = X, p, tuple(m), []
            prev = ZERO
            for i in range(len(m)):
                if plain:
                    o.u.append(const(VALUES[i]))
                    continue
                w = X.real("%s%d" % (nm, i + 1), value_after("%s%d" % (nm, i) if i else None))
                X.facts.append(lt(add(prev, const(GAP)), w))
                o.u.append(w)
                prev = w
            if m and not plain:
                X.facts.append(lt(add(prev, const(GAP)), ONE))
            o.k, o.n = knots(p, o.u, m), p + 1 + sum(m)
            self.dir.append(o)
        nu, nv = self.dir[0].n, self.dir[1].n
        self.nu, self.nv = nu, nv
        if plain:
            self.pts = [[X.real("P%d%s" % (i, a), lambda r, e: rreal(r)) for a in "xyz"] + [const(WEIGHTS[i % len(WEIGHTS)])] for i in range(nu * nv)]
        else:
            self.pts = points(X, "P", nu * nv)

    def value(self):
        return sheet_value(self.X, self.dir[0].p, self.dir[1].p, self.dir[0].k, self.dir[1].k, self.nu, self.nv, self.pts)

    def along(self, d, f):
        """The sheet after an operation f(curve) -> (knots, homogeneous points) on every row along d: (knots, nu, nv, points)."""
        o, other = self.dir[d], self.dir[1 - d]
        rows = []
        for j in range(other.n):
            c = Shape.__new__(Shape)
            c.__dict__.update(o.__dict__)
            c.pts = [self.pts[(i + j * self.nu) if d == 0 else (j + i * self.nu)] for i in range(o.n)]
            k2, Q = f(c)
            rows.append(Q)
        n2 = len(rows[0])
        nu, nv = (n2, other.n) if d == 0 else (other.n, n2)
        flat = [rows[j][i] if d == 0 else rows[i][j] for j in range(nv) for i in range(nu)]
        return k2, nu, nv, flat


def value_after(name):
    def g(r, e):
        lo = e.syms[name] if name else Fraction(0)
        return lo + (1 - lo) * Fraction(r.randint(2, 9), 20)
    return g


def sheet_value(X, pu, pv, ku, kv_, nu, nv, pts):
    return obj(X, S, DegreeU=const(pu), DegreeV=const(pv), KnotsU=kv(X, arr(ku)), KnotsV=kv(X, arr(kv_)), ControlPoints=X.gridval(const(nu), const(nv), vecs(pts)))


def demand_sheet(ctx, rule, X, R, v, pu, pv, ku, kv_, nu, nv, Q, facts=None):
    f = facts or R.facts0
    if not R.ok or not isinstance(v, Struct) or not v.has("KnotsU") or not isinstance(v.get("ControlPoints"), Struct):
        ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
        return
    kf = knot_field(ctx.prog)
    a, b = [fixed_list(ctx, v.get(n).get(kf), None, f) for n in ("KnotsU", "KnotsV")]
    g = v.get("ControlPoints")
    P = fixed_list(ctx, g.get("Values"), None, f)
    if a is None or b is None or P is None:
        ctx.add("open", rule, where(R.fn), "result of an unknown size")
        return
    demand(ctx, rule + ": degrees and sizes", X, R, vec([v.get("DegreeU"), v.get("DegreeV"), const(len(a)), const(len(b)), g.get("UCount"), g.get("VCount"), const(len(P))]),
           [const(x) for x in (pu, pv, len(ku), len(kv_), nu, nv, nu * nv)], facts=facts, kind="size")
    if len(a) != len(ku) or len(b) != len(kv_) or len(P) != nu * nv:
        return
    demand(ctx, rule + ": knots", X, R, vec(a + b), ku + kv_, facts=facts)
    demand(ctx, rule + ": points and weights", X, R, vec([x for q in P for x in comps(q)]), [x for h in Q for x in cart(h)], facts=facts)


def sheets():
    return [((1, (1,)), (2, (1,))), ((2, (1,)), (1, (0,))), ((2, (1,)), (3, (1,)))]


def g_sheet_insert(ctx):
    for U, V in sheets():
        for nm, d in (("U", 0), ("V", 1)):
            for kind in ("list", "times"):
                study(ctx, sheet_insert_one, U, V, nm, d, kind)


def sheet_insert_one(ctx, U, V, nm, d, kind):
    X = Inputs(ctx.prog)
    s = Sheet(X, U, V)
    o = s.dir[d]
    t = 1 if o.p == 1 else 2
    if o.p == 1 and o.mults == (1,):
        return
    if kind == "list":
        w = [o.u[0]] * t
        R = call(ctx, X, S + "::InsertKnot" + nm, s.value(), [arr(w)], pt=["span"], unroll=60)
    else:
        t = min(t, o.p - o.mults[0]) or 1
        R = call(ctx, X, S + "::InsertKnot" + nm, s.value(), [o.u[0], const(t)], pt=["double", "int"], unroll=60)
    inside(ctx, "inserting a %s in direction %s, degrees %d and %d" % (kind, nm, U[0], V[0]), X, R)
    k2, nu, nv, Q = s.along(d, lambda c: refined(c, [c.mults[0] + t]))
    ku, kv_ = (k2, s.dir[1].k) if d == 0 else (s.dir[0].k, k2)
    demand_sheet(ctx, "inserting a %s in direction %s, degrees %d and %d" % ("list of values" if kind == "list" else "value repeatedly", nm, U[0], V[0]), X, R, R.ret, U[0], V[0], ku, kv_, nu, nv, Q)


def g_sheet_elevate(ctx):
    for U, V in sheets():
        for nm, d in (("U", 0), ("V", 1)):
            for t in (1, 2):
                study(ctx, sheet_elevate_one, U, V, nm, d, t)


def sheet_elevate_one(ctx, U, V, nm, d, t):
    X = Inputs(ctx.prog)
    s = Sheet(X, U, V)
    R = call(ctx, X, S + "::ElevateDegree" + nm, s.value(), [const(t)], unroll=60)
    inside(ctx, "elevating direction %s by %d, degrees %d and %d" % (nm, t, U[0], V[0]), X, R)
    k2, nu, nv, Q = s.along(d, lambda c: elevated(c, t))
    ku, kv_ = (k2, s.dir[1].k) if d == 0 else (s.dir[0].k, k2)
    pu, pv = (U[0] + t, V[0]) if d == 0 else (U[0], V[0] + t)
    demand_sheet(ctx, "elevating direction %s by %d, degrees %d and %d" % (nm, t, U[0], V[0]), X, R, R.ret, pu, pv, ku, kv_, nu, nv, Q)


def g_sheet_remove(ctx):
    """A redundant knot of one direction goes and leaves the sheet without it."""
    for (U, V), a in ((((2, (0,)), (1, (0,))), 1), (((2, (0,)), (2, (1,))), 2), (((1, (1,)), (3, (0,))), 1), (((3, (0,)), (2, (0,))), 2)):
        for nm, d in (("U", 0), ("V", 1)):
            X = Inputs(ctx.prog)
            s = Sheet(X, U, V, plain=True)
            o = s.dir[d]
            n = min(a, o.p - o.mults[0])
            if n < 1:
                continue
            k2, nu, nv, Q = s.along(d, lambda c: refined(c, [c.mults[0] + n]))
            ku, kv_ = (k2, s.dir[1].k) if d == 0 else (s.dir[0].k, k2)
            tol = X.real("tol", lambda r, e: F(r.choice([1, 2, 5]), r.choice([1000, 100, 10])))
            X.facts.append(lt(ZERO, tol))
            c = sheet_value(X, U[0], V[0], ku, kv_, nu, nv, [cart(h) for h in Q])
            R = call(ctx, X, S + "::RemoveKnot" + nm, c, [o.u[0], const(n), tol], unroll=60)
            inside(ctx, "removing %d redundant copies in direction %s, degrees %d and %d" % (n, nm, U[0], V[0]), X, R)
            rule = "removing %d redundant copies in direction %s, degrees %d and %d" % (n, nm, U[0], V[0])
            if not R.ok or not isinstance(R.ret, Struct) or not R.ret.has("get1"):
                ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
                continue
            demand(ctx, rule + ": reports them", X, R, R.ret.get("get1"), const(n))
            demand_sheet(ctx, rule, X, R, tidied(R.ret.get("get0"), R.facts0), U[0], V[0], s.dir[0].k, s.dir[1].k, s.nu, s.nv, [hom(q) for q in s.pts])


CURVES = [g_elevate, g_remove, g_bezier, g_insert]
GROUPS = CURVES + [g_sheet_insert, g_sheet_elevate, g_sheet_remove]
