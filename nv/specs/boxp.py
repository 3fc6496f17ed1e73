"""The bounding box of a curve: on every path with few subdivisions, the box of the curve's points at the ends of the pieces, each accepted
piece flat or small."""
from .common import *
from .shapes import Shape, refined, cart, hom

C = NS + "Curve"


def halves(H):
    """The two halves of a Bezier piece, homogeneous."""
    rows = [H]
    while len(rows[-1]) > 1:
        rows.append([[scale(add(x, y), Fraction(1, 2)) for x, y in zip(a, b)] for a, b in zip(rows[-1], rows[-1][1:])])
    return [r[0] for r in rows], [r[-1] for r in reversed(rows)]


def tilings(splits):
    """Ways to subdivide [0,1] in halves that many times: nested pairs, None = a piece."""
    if splits == 0:
        return [None]
    return [(a, b) for k in range(splits) for a in tilings(k) for b in tilings(splits - 1 - k)]


def pieces(H, t):
    if t is None:
        return [H]
    a, b = halves(H)
    return pieces(a, t[0]) + pieces(b, t[1])


def forests(n, splits):
    """Tilings of n pieces with that many splits in total."""
    if n == 1:
        return [(t,) for t in tilings(splits)]
    return [(t,) + r for k in range(splits + 1) for t in tilings(k) for r in forests(n - 1, splits - k)]


class Boxed(Shape):
    """Sample points that are often flat or symmetric."""
    def __init__(self, X, p, m):
        Shape.__init__(self, X, p, m)
        names = [["P%d%s" % (i, a) for a in "xyz"] for i in range(self.n)]

        def g(r, e):
            style = r.random()
            for a in range(3):
                col = [n[a] for n in names]
                if style < 0.35:        # monotone
                    vals = sorted((e.syms[c] for c in col), reverse=r.random() < 0.5)
                elif style < 0.6:       # symmetric bump over a slope
                    k = len(col) - 1
                    h = F(r.randint(-4, 4))
                    vals = [F(i) * (a == 0) + h * min(i, k - i) for i in range(k + 1)]
                elif style < 0.7:
                    vals = [F(r.randint(0, 3)) if r.random() < 0.5 else e.syms[col[0]] for _ in col]
                else:
                    continue
                for c, v in zip(col, vals):
                    e.syms[c] = v
            if r.random() < 0.6:
                for i in range(self.n):
                    e.syms["P%dw" % i] = F(1)
            d = max(max(e.syms[n[a]] for n in names) - min(e.syms[n[a]] for n in names) for a in range(3)) or F(1)
            e.syms["eps"] = r.choice([F(1, 10 ** 9), F(1, 10 ** 9), F(1, 10 ** 3), d * F(r.randint(3, 24), 20), d * F(r.randint(3, 24), 20), d * 2])
        self.eps = X.real("eps", lambda r, e: F(1, 10))
        X.gens.append(g)


def paths(ctx, make, most, limit):
    """Calls along every path with at most `most` decisions: (inputs, result)."""
    out, todo, n = [], [()], 0
    while todo:
        sc = todo.pop(0)
        X, s, R = make(sc)
        n += 1
        if R.ok and not R.error:
            out.append((sc, X, s, R))
        elif "decision %d is open" % len(sc) in (R.error or ""):
            if len(sc) < most and n < limit:
                todo += [sc + (True,), sc + (False,)]
        else:
            return None, R
    return out, R


def family(quick, thorough, multi):
    def group(ctx, want="both"):
        ctx.boxdemand = want
        for p, m, most in (quick if ctx.tier == "quick" else thorough):
            one(ctx, p, m, most)
    group.__name__ = "g_box_" + multi
    return group


def one(ctx, p, m, most):
    def make(sc):
        X = Inputs(ctx.prog)
        s = Boxed(X, p, m)
        X.facts.append(lt(ZERO, s.eps))
        return X, s, call(ctx, X, C + "::GetBoundingBox", s.curve(), [s.eps], unroll=60, script=sc)
    got, R = paths(ctx, make, most, 300)
    name = "box of a curve of degree %d with interior multiplicities %s" % (p, list(m))
    if not got:
        ctx.add("open", name, where(R.fn), R.error or "no path")
        return
    for sc, X, s, R in got:
        rule = "%s, decisions %s" % (name, "".join("yn"[not x] for x in sc))
        f = R.facts0.extend(R.taken)
        if f.infeasible([]):
            continue
        b = R.ret
        if not isinstance(b, Struct) or not b.has("Min") or not isinstance(b.get("Min"), Vec) or not isinstance(b.get("Max"), Vec):
            ctx.add("open", rule, where(R.fn), "result of an unknown form")
            continue
        Q = refined(s, [p] * len(m))[1]
        segs = [Q[j * p:j * p + p + 1] for j in range(len(m) + 1)]
        path(ctx, rule, X, R, f, b, segs, len(sc), s.eps)


def split(H):
    rows = [H]
    while len(rows[-1]) > 1:
        rows.append([[(x + y) / 2 for x, y in zip(a, b)] for a, b in zip(rows[-1], rows[-1][1:])])
    return [r[0] for r in rows], [r[-1] for r in reversed(rows)]


def cut(H, t):
    """End points of the pieces, as numbers."""
    if t is None:
        return [(H[0], H[-1])]
    a, b = split(H)
    return cut(a, t[0]) + cut(b, t[1])


def flat(h):
    return [x / h[3] for x in h[:3]]


def extent(H, a, lo, hi, d=7):
    """Bounds on the smallest and the largest coordinate a of the piece: ((at least, at most), (at least, at most))."""
    c = [flat(h)[a] for h in H]
    e0, e1 = min(c[0], c[-1]), max(c[0], c[-1])
    if d == 0 or (min(c) >= e0 and max(c) <= e1) or (min(c) >= lo and max(c) <= hi):
        return min(c), e0, e1, max(c)
    x, y = split(H)
    p, q = extent(x, a, min(lo, e0), max(hi, e1), d - 1), extent(y, a, min(lo, e0), max(hi, e1), d - 1)
    return min(p[0], q[0]), min(p[1], q[1]), max(p[2], q[2]), max(p[3], q[3])


def path(ctx, rule, X, R, f, b, segs, most, eps):
    """One path.  (1) the result is the box of the curve at the ends of the pieces of some subdivision by halves; (2) it is the curve's
    box up to the tolerance (or 1e-6, the flatness test's)."""
    if ctx.pick:
        return
    w = where(R.fn)
    ctx.saw(R.fn)
    r1 = rule + ": the box of the curve's points at the ends of every piece"
    r2 = rule + ": contains the curve and exceeds it by no more than the tolerance"
    cands = [t for k in range(min(most, 6) + 1) for t in forests(len(segs), k)]
    cands = cands[:400]
    alive, worst, n, und = list(range(len(cands))), None, 0, 0
    close = ctx.boxdemand != "ends"
    for env in samples(ctx, X, rule, f):
        try:
            got = [[ev(x, env) for x in b.get(k).c] for k in ("Min", "Max")]
            S = [[[ev(x, env) for x in h] for h in H] for H in segs]
            e = max(ev(eps, env) * Fraction(1001, 1000), Fraction(101, 100 * 10 ** 6))
        except (Undet, Uninit, OutOfRange, ZeroDivisionError):
            und += 1
            continue
        if env.inexact:
            und += 1
            continue
        n += 1
        for a in range(3):
            if not close:
                break
            z = [extent(H, a, min(flat(h)[a] for h in (H[0], H[-1])), max(flat(h)[a] for h in (H[0], H[-1]))) for H in S]
            lo0, lo1, hi0, hi1 = min(x[0] for x in z), min(x[1] for x in z), max(x[2] for x in z), max(x[3] for x in z)
            bad = None
            if got[0][a] > lo1 + e:
                bad = "lower bound %s, but the curve reaches %s" % (num(got[0][a]), num(lo1))
            elif got[1][a] < hi0 - e:
                bad = "upper bound %s, but the curve reaches %s" % (num(got[1][a]), num(hi0))
            elif got[0][a] < lo0 - e:
                bad = "lower bound %s, but the curve stays above %s" % (num(got[0][a]), num(lo0))
            elif got[1][a] > hi1 + e:
                bad = "upper bound %s, but the curve stays below %s" % (num(got[1][a]), num(hi1))
            if bad:
                ctx.add("refuted", r2, w, "coordinate %s: %s (tolerance %s)" % ("xyz"[a], bad, num(ev(eps, env))), valuation(env))
                close = False
        now = []
        if ctx.boxdemand == "tight":
            continue
        for i in alive:
            P = [q for H, t in zip(S, cands[i]) for ab in cut(H, t) for q in (flat(ab[0]), flat(ab[1]))]
            if all(got[0][a] == min(q[a] for q in P) and got[1][a] == max(q[a] for q in P) for a in range(3)):
                now.append(i)
        if not now:
            ctx.add("refuted" if most <= 6 and len(cands) < 400 else "open", r1, w,
                    "no subdivision into halves has the box %s .. %s" % ([num(x) for x in got[0]], [num(x) for x in got[1]]), valuation(env))
            return
        alive = now
    if not n:
        ctx.add("open", rule, w, "no valuation on this path")
        return
    if close:
        ctx.add("agrees", r2, w, "%d valuations on this path" % n)
    if ctx.boxdemand == "tight":
        return
    for i in alive[:3]:
        ends = [cart(h) for H, t in zip(segs, cands[i]) for P in pieces(H, t) for h in (P[0], P[-1])]
        try:
            if all(matches(k, b.get(F_).c[a], [q[a] for q in ends]) for k, F_ in (("min", "Min"), ("max", "Max")) for a in range(3)):
                ctx.nobl += 6
                ctx.add("proved", r1, w, "6 component(s)")
                return
        except (TooBig, RecursionError):
            pass
    ctx.add("agrees", r1, w, "%d valuations on this path, %d undetermined" % (n, und))


def matches(kind, code, args):
    """code is the smallest (largest) of args."""
    c = single(code).args if is_single(code) and single(code).kind == kind else [code]
    used = set()
    for x in c:
        js = [j for j, y in enumerate(args) if x is y or identical(x, y)]
        if not js:
            return False
        used.update(js)
    return len(used) == len(args)


GROUPS = [family([(1, (), 4), (2, (), 5), (3, (), 5)], [(1, (), 6), (2, (), 7), (3, (), 7), (4, (), 5), (5, (), 3)], "one"),
          family([(1, (1,), 4), (2, (1,), 4), (2, (2,), 4)], [(1, (1,), 6), (2, (1,), 6), (2, (2,), 6), (3, (1,), 4), (3, (3,), 6)], "two"),
          family([(2, (1, 1), 4)], [(2, (1, 1), 6), (3, (2, 1), 5)], "three")]
g_one, g_two, g_three = GROUPS
g_ends1, g_ends2, g_ends3 = [lambda ctx, g=g: g(ctx, "ends") for g in GROUPS]
g_tight1, g_tight2, g_tight3 = [lambda ctx, g=g: g(ctx, "tight") for g in GROUPS]
