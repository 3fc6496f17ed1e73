"""Knot vectors of fixed structure: the pair list, span lookup by value, uniformity and construction from pairs."""
from .common import *
from .shapes import Shape, knots, arr, fixed_list, family
from .knots import KV

NAMES = ("Index", "Value", "Multiplicity")


def pairs_of(s):
    """(index of the first occurrence, value, multiplicity)"""
    out, i = [], 0
    for v, m in zip([ZERO] + s.u + [ONE], (s.p + 1,) + tuple(s.mults) + (s.p + 1,)):
        if m:
            out.append((const(i), v, const(m)))
            i += m
    return out


def flat(p):
    return [p.get(n) for n in NAMES] if isinstance(p, Struct) and p.has("Multiplicity") else None


def structures(ctx):
    fam = family(3, (1, 2, 3), 2) + [(2, (1, 2, 1)), (1, (1, 1, 1, 1)), (4, (4, 1))]
    return fam if ctx.tier == "quick" else fam + family(4, (4,), 2) + family(2, (2, 3), 3)


class Close(Shape):
    """Distinct knots that are very close to each other."""
    def __init__(self, X, p, mults, gap):
        self.X, self.p, self.mults = X, p, tuple(mults)
        self.u = [const(F(1, 2) + i * gap) for i in range(len(mults))]
        self.k = knots(p, self.u, mults)
        self.U = arr(self.k)


def g_pairs(ctx):
    todo = [(p, m, None) for p, m in structures(ctx)]
    todo += [(p, m, g) for g in (F(1, 100), F(1, 10 ** 3), F(1, 10 ** 6), F(1, 10 ** 9)) for p, m in ((1, (1, 1)), (2, (1, 2, 1)), (3, (2, 2)))]
    for p, m, gap in todo:
        X = Inputs(ctx.prog)
        s = Shape(X, p, m) if gap is None else Close(X, p, m, gap)
        R = call(ctx, X, KV + "::GetKnotPairs", kv(X, s.U), [], unroll=60)
        rule = "the pair list of knots with end multiplicity %d and interior ones %s%s" % (p + 1, list(m), ", %s apart," % gap if gap else "")
        got = fixed_list(ctx, R.ret, None, R.facts0) if R.ok else None
        want = pairs_of(s)
        if got is None:
            ctx.add("open", rule, where(R.fn), R.error or "result of an unknown size")
            continue
        demand(ctx, rule + " has every distinct value once", X, R, const(len(got)), const(len(want)))
        if len(got) != len(want):
            continue
        f = [flat(g) for g in got]
        if any(x is None for x in f):
            ctx.add("open", rule, where(R.fn), "pairs of an unknown form")
            continue
        demand(ctx, rule + " gives index, value and multiplicity", X, R, vec([x for g in f for x in g]), [x for w in want for x in w])


def g_findspan(ctx):
    for p, m in structures(ctx):
        n = len(m) + 1
        for j in range(n):
            for what in ("inside", "at the left end of") + (("at the right end of",) if j == n - 1 else ()):
                X = Inputs(ctx.prog)
                s = Shape(X, p, m)
                ends, want = [ZERO] + s.u + [ONE], pairs_of(s)
                if what == "inside":
                    v = X.real("u", lambda r, e, a=ends[j], b=ends[j + 1]: ev(a, e) + (ev(b, e) - ev(a, e)) * F(r.randint(1, 9), 10))
                    X.facts += [lt(ends[j], v), lt(v, ends[j + 1])]
                else:
                    v = ends[j] if what == "at the left end of" else ONE
                R = call(ctx, X, KV + "::FindSpan", kv(X, s.U), [v], unroll=60)
                rule = "a parameter %s span %d of knots with end multiplicity %d and interior ones %s is found there" % (what, j, p + 1, list(m))
                if not R.ok or not isinstance(R.ret, Struct) or not R.ret.has("Left"):
                    ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
                    continue
                a, b = flat(R.ret.get("Left")), flat(R.ret.get("Right"))
                if a is None or b is None:
                    ctx.add("open", rule, where(R.fn), "pairs of an unknown form")
                    continue
                demand(ctx, rule, X, R, vec([R.ret.get("Index")] + a + b), [const(j)] + list(want[j]) + list(want[j + 1]))


def g_isuniform(ctx):
    even = lambda n: [F(i + 1, n + 1) for i in range(n)]
    cases_ = [(p, even(n), [mm] * n, True) for p in (1, 2, 3) for n in range(4) for mm in ((1, 2) if p > 1 else (1,))]
    cases_ += [(3, even(3), [1, 3, 2], True), (2, even(2), [2, 1], True), (2, even(4), [1, 1, 1, 1], True)]
    cases_ += [(2, [F(1, 4), F(1, 2)], [1, 1], False), (1, [F(1, 4)], [1], False), (3, [F(1, 2), F(3, 4)], [1, 1], False), (2, [F(2, 5), F(3, 5)], [1, 1], False), (2, [F(1, 5), F(2, 5), F(3, 5)], [1, 2, 1], False),
               (2, [F(1, 4), F(1, 2), F(4, 5)], [1, 1, 1], False), (3, [F(1, 3), F(11, 20)], [2, 1], False), (1, [F(7, 8)], [1], False), (2, [F(1, 4), F(3, 4)], [1, 1], False), (2, [F(9, 20)], [2], False)]
    for p, u, m, yes in cases_:
        X = Inputs(ctx.prog)
        R = call(ctx, X, KV + "::IsUniform", kv(X, arr(knots(p, [const(x) for x in u], m))), [], unroll=60)
        demand(ctx, "knots %s with multiplicities %s, degree %d, %s uniform" % ([str(x) for x in u], m, p, "are" if yes else "are not"), X, R, R.ret, TRUE if yes else FALSE)


def g_from_pairs(ctx):
    for m in ((2, 2), (2, 1, 2), (1,), (3, 2, 1, 3), (0, 2), (2, 0, 1), (), (0,), (1, 1, 1), (2, 2, 0)):
        X = Inputs(ctx.prog)
        vs = []
        for i in range(len(m)):
            vs.append(X.real("v%d" % i, lambda r, e, i=i: r.choice([F(i, max(1, len(m) - 1)), F(i, max(1, len(m) - 1)), F(0), F(1), F(r.randint(-2, 12), 10)])))
        L = mk(AList, tuple(mk(Struct, KV + "::KnotPair", (("Index", const(i)), ("Value", v), ("Multiplicity", const(k)))) for i, (v, k) in enumerate(zip(vs, m))), X.I.shape_t(KV + "::KnotPair"))
        R = call(ctx, X, KV + "::KnotVector", None, [L], pt=["KnotPair"], unroll=60)
        want = [v for v, k in zip(vs, m) for _ in range(k)]
        used = [v for v, k in zip(vs, m) if k]
        ok = band(*([le(a, b) for a, b in zip([ZERO] + used, used)] + [eq(used[-1], ONE)])) if used else FALSE
        rule = "building from pairs with multiplicities %s" % list(m)
        demand_throw(ctx, rule + " is rejected exactly if the values are not in order from zero or more to one", X, R, bnot(ok))
        if not used:
            continue
        got = fixed_list(ctx, R.ret.get(knot_field(ctx.prog)), None, R.facts0) if R.ok and isinstance(R.ret, Struct) else None
        if got is None:
            ctx.add("open", rule, where(R.fn), R.error or "result of an unknown size")
            continue
        demand(ctx, rule + " holds every value as often as its multiplicity says", X, R, vec([const(len(got))] + got), [const(len(want))] + want)


GROUPS = [g_pairs, g_findspan, g_isuniform, g_from_pairs]
