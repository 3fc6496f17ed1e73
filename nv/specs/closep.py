"""Knot removal and its tolerance: on every path that removes copies of a knot, the curve stays within the tolerance of the original."""
from .common import *
from .shapes import Shape, curve_parts, comps
from .boxp import paths

C = NS + "Curve"


def insert(p, k, H, u):
    """One knot inserted, numbers."""
    j = max(i for i in range(p, len(k) - p - 1) if k[i] <= u)
    out = []
    for i in range(len(H) + 1):
        if i <= j - p:
            out.append(H[i])
        elif i > j - sum(x == u for x in k):
            out.append(H[i - 1])
        else:
            a = (u - k[i]) / (k[i + p] - k[i])
            out.append([a * x + (1 - a) * y for x, y in zip(H[i], H[i - 1])])
    return k[:j + 1] + [u] + k[j + 1:], out


def at(p, k, H, u):
    """Point of a curve, numbers."""
    j = max(i for i in range(p, len(k) - p - 1) if k[i] <= u and k[i] < k[i + 1])
    d = [H[j - p + i] for i in range(p + 1)]
    for r in range(1, p + 1):
        for i in range(p, r - 1, -1):
            lo, hi = k[j - p + i], k[j + 1 + i - r]
            a = (u - lo) / (hi - lo)
            d[i] = [a * x + (1 - a) * y for x, y in zip(d[i], d[i - 1])]
    return [x / d[p][3] for x in d[p][:3]]


class Near(Shape):
    """Curves from which up to `a` copies of knot i can nearly be removed."""
    def __init__(self, X, p, m, i, a):
        Shape.__init__(self, X, p, m)
        self.tol = X.real("tol", lambda r, e: F(1, r.choice([10, 100, 1000])))
        X.facts.append(lt(ZERO, self.tol))
        self.i = i

        def g(r, e):
            us = [e.syms["u%d" % (j + 1)] for j in range(len(m))]
            k = [F(0)] * (p + 1) + [u for j, (u, n) in enumerate(zip(us, m)) for _ in range(n - (a if j == i else 0))] + [F(1)] * (p + 1)
            far = r.choice([F(0), F(0), F(100)])
            w0 = r.choice([F(1), F(1), F(1, 100), F(20)])
            rat = r.random() < 0.5
            H = []
            for _ in range(len(k) - p - 1):
                w = w0 * (F(r.randint(5, 20), 10) if rat else 1)
                H.append([w * (F(r.randint(-40, 40), 10) + far) for _ in range(3)] + [w])
            for _ in range(a):
                k, H = insert(p, k, H, us[i])
            wm = min(h[3] for h in H)
            pm = max(max(abs(x / h[3]) for x in h[:3]) for h in H)
            hm = max(max(abs(x) for x in h[:3]) for h in H)
            # near the threshold, measured in several ways
            size = e.syms["tol"] * wm / (1 + r.choice([pm, pm, hm, F(0)])) * F(2) ** r.randint(-3, 7)
            kind = r.randint(0, 4)
            for h in H:
                if r.random() < 0.5:
                    for c in range(4):
                        if kind in (0, c + 1):
                            h[c] += size * F(r.randint(-8, 8), 8)
            for j, h in enumerate(H):
                w = h[3] if h[3] > 0 else wm
                for c, x in zip("xyz", h):
                    e.syms["P%d%s" % (j, c)] = x / w
                e.syms["P%dw" % j] = w
        X.gens.append(g)


def g_close(ctx):
    # degree, multiplicities, which knot, nearly redundant copies, times
    fam = [(1, (1,), 0, 1, 1), (2, (1,), 0, 1, 1), (2, (2,), 0, 1, 1), (2, (2,), 0, 2, 2), (3, (1,), 0, 1, 1), (3, (1, 1), 0, 1, 1), (3, (2,), 0, 2, 2), (2, (1, 1), 1, 1, 1), (3, (3,), 0, 2, 3), (4, (1,), 0, 1, 1)]
    if ctx.tier != "quick":
        fam += [(3, (2, 1), 0, 1, 2), (3, (1, 2), 1, 2, 2), (4, (2,), 0, 2, 2), (5, (1,), 0, 1, 1), (4, (2, 1), 0, 2, 2)]
    if ctx.pick:
        return
    for p, m, i, a, times in fam:
        def make(sc):
            X = Inputs(ctx.prog)
            s = Near(X, p, m, i, a)
            return X, s, call(ctx, X, C + "::RemoveKnot", s.curve(), [s.u[i], const(times), s.tol], unroll=60, script=sc)
        got, R = paths(ctx, make, times + 2, 60)
        name = "removing up to %d of %d copies within the tolerance, degree %d, multiplicities %s" % (times, m[i], p, list(m))
        if not got:
            ctx.add("open", name, where(R.fn), R.error or "no path")
            continue
        for sc, X, s, R in got:
            f = R.facts0.extend(R.taken)
            rule = "%s, decisions %s" % (name, "".join("yn"[not x] for x in sc))
            if f.infeasible([]):
                continue
            w = where(R.fn)
            if not isinstance(R.ret, Struct) or not R.ret.has("get1") or cval(R.ret.get("get1")) is None:
                ctx.add("open", rule, w, "result of an unknown form")
                continue
            t = int(cval(R.ret.get("get1")))
            if t == 0:
                continue
            parts = curve_parts(ctx, R.ret.get("get0"), f)
            if parts is None:
                ctx.add("open", rule, w, "result of an unknown size")
                continue
            close(ctx, rule, X, R, f, s, parts, t, p, w)


def close(ctx, rule, X, R, f, s, parts, t, p, w):
    d, k2, P2 = parts
    n = 0
    worst = 0
    for env in samples(ctx, X, rule, f):
        try:
            k = [ev(x, env) for x in s.k]
            H = [[ev(x, env) for x in c] for c in s.pts]
            kn = [ev(x, env) for x in k2]
            G = [[ev(x, env) for x in comps(c)] for c in P2]
            tol = ev(s.tol, env)
        except (Undet, Uninit, OutOfRange, ZeroDivisionError):
            continue
        if cval(d) != p or any(h[3] <= 0 for h in G) or len(kn) != len(G) + p + 1:
            continue
        H, G = [[[x * h[3] for x in h[:3]] + [h[3]] for h in Z] for Z in (H, G)]
        n += 1
        us = {F(j, 24) for j in range(25)} | {x for x in k} | {(x + y) / 2 for x, y in zip(k, k[1:])}
        for u in sorted(us):
            try:
                a, b = at(p, k, H, u), at(p, kn, G, u)
            except (ZeroDivisionError, ValueError):
                continue
            q = sum((x - y) ** 2 for x, y in zip(a, b)) / tol ** 2
            worst = max(worst, q)
            # each removal may use the tolerance once; the weights themselves may change by the tolerance
            if q > (t * F(5, 4)) ** 2:
                ctx.add("refuted", rule, w, "%d removed, and at parameter %s the curve moves by %.3g times the tolerance" % (t, num(u), float(q) ** 0.5), valuation(env))
                return
    ctx.add("agrees" if n else "open", rule, w, "%d valuations on this path, at most %.3g times the tolerance" % (n, float(worst) ** 0.5))


GROUPS = [g_close]
