"""Parameter searches, evaluation as an arbitrary function of the parameter: on every path with few decisions and few rounds, all parameters
stay in [0,1], the fixed one is the given one, and the rounds are counted."""
from .common import *
from ..contracts import objval

C, S = NS + "Curve", NS + "Surface"


def watch(log, surface):
    """Evaluation and derivatives as symbols; every call is recorded."""
    def f(name, n, shape):
        def g(I, e, st, fr):
            if len(e["args"]) != n:
                return None
            objval(I, e, st, fr)
            a = tuple(I.topoly(I.ev(x, st, fr)) for x in e["args"])
            log.append((name, a, st.facts, e.get("l"), len(I.taken)))
            if shape == "vec":
                return "rv", vec([app("%s.%d" % (name, i), a, "real") for i in range(3)], 3, 1)
            if len(a) == 2:
                return "rv", mk(AApp, "all", a, VEC3, (add(a[1], ONE),))
            nu, nv = add(a[2], ONE), add(a[3], ONE)
            return "rv", mk(Struct, "libnurbs::Grid<Vec3>", (("UCount", nu), ("VCount", nv), ("Values", mk(AApp, "all", a, VEC3, (mul(nu, nv),)))))
        return g
    q = S if surface else C
    k = 2 if surface else 1
    return {q + "::Evaluate": f("point", k, "vec"), q + "::EvaluateDerivative": f("der", 2 * k, "vec"), q + "::EvaluateAll": f("all", 2 * k, "table")}


def inside(x):
    return band(le(ZERO, x), le(x, ONE))


def explore(ctx, make, most, limit):
    """Every path with at most `most` decisions; longer ones continued with one answer throughout."""
    out, todo, n, bad = [], [()], 0, None
    seen, done = set(), set()
    while todo and n < limit:
        sc = todo.pop(0)
        if sc in seen:
            continue
        seen.add(sc)
        r = make(sc)
        n += 1
        R = r[-1]
        if R.ok and not R.error:
            sc = sc[:len(R.taken)]
            if sc not in done:
                done.add(sc)
                out.append((sc, r))
        elif "decision %d is open" % len(sc) in (R.error or ""):
            if len(sc) < most:
                todo += [sc + (True,), sc + (False,)]
            elif len(sc) == most:
                todo += [sc + (x,) * 80 for x in (True, False)]
            else:
                out.append((sc, r))
        else:
            bad = R
    return out, bad


def rounds(ctx, what, qual, surface, k, args, results, most, fixed, limit):
    """args: X -> (arguments, start values); results: result -> the parameters; fixed: the component that is given, or None."""
    def make(sc):
        X = Inputs(ctx.prog)
        log = []
        o = X.surface()[0] if surface else X.curve()[0]
        a, start = args(X, const(k))
        R = call(ctx, X, qual, o, a, opaque=watch(log, surface), unroll=60, script=sc, lets=X)
        return X, a, start, log, R
    got, bad = explore(ctx, make, most, limit)
    if bad is not None:
        ctx.add("open", "%s, %d rounds" % (what, k), where(bad.fn), bad.error)
    bound = (4 * k + 2) if surface and fixed is None else (2 * k + 1)
    for sc, (X, a, start, log, R) in got:
        s = "".join("yn"[not x] for x in sc)
        rule = "%s, at most %d rounds, decisions %s" % (what, k, s if len(s) < 12 else s[:11] + ".." + str(len(s)))
        f = R.facts0.extend(R.taken)
        if f.infeasible([]):
            continue
        if ctx.pick:
            continue
        w = where(R.fn)
        ders, pts = [c for c in log if c[0] != "point"], [c for c in log if c[0] == "point"]
        over = len(ders) > bound if start is not None else len(pts) > 3 * k + 2
        if over:
            # the decisions up to the first call too many
            n = ders[bound][4] if start is not None else pts[3 * k + 2][4]
            f = R.facts0.extend(R.taken[:n])
        if over and witness(ctx, X, rule, f):
            ctx.add("refuted", rule + ": the rounds are counted", w, "%d evaluations and %d derivatives on one path with at most %d rounds allowed" % (len(pts), len(ders), k),
                    valuation(witness(ctx, X, rule, f)))
            continue
        ctx.add("proved" if not over else "open", rule + ": the rounds are counted", w, "%d evaluations, %d derivatives" % (len(pts), len(ders)))
        if not R.ok:
            ctx.add("open", rule, w, R.error)
            continue
        try:
            ps = results(R.ret)
        except (AttributeError, KeyError, TypeError, IndexError):
            ps = None
        if not ps or not all(isinstance(x, Poly) for x in ps):
            ctx.add("open", rule, w, "result of an unknown form")
            continue
        free = [x for i, x in enumerate(ps) if i != fixed]
        c = band(*[inside(x) for x in free])
        if known(f, c):
            ctx.nobl += 1
            ctx.add("proved", rule + ": the result lies in the domain", w, "by the facts of the path")
        else:
            demand_true(ctx, rule + ": the result lies in the domain", X, R, c, facts=f, what="result in [0,1]")
        if fixed is not None and ps[fixed] is a[2]:
            ctx.nobl += 1
            ctx.add("proved", rule + ": the fixed parameter is returned as given", w)
        elif fixed is not None:
            demand(ctx, rule + ": the fixed parameter is returned as given", X, R, ps[fixed], a[2], facts=f)
        if k == 0 and start is not None:
            demand(ctx, rule + ": no round, no step", X, R, vec(free, len(free), 1), list(start), facts=f)
        seen = set()
        for name, b, fc, l, _ in log:
            n = 2 if surface else 1
            key = (name, tuple(x.id for x in b[:n]))
            if key in seen:
                continue
            seen.add(key)
            c = band(*[inside(x) for i, x in enumerate(b[:n]) if i != fixed])
            if fixed is not None:
                c = band(c, eq(b[fixed], a[2]))
            if known(fc, c):
                ctx.nobl += 1
                continue
            demand_true(ctx, rule + ": evaluation no. %d inside the domain%s" % (len(seen), "" if fixed is None else " on the line"), X, R, c, facts=f, what="parameters of a call to %s at line %s in [0,1]" % (name, l))
        if log:
            ctx.add("proved", rule + ": evaluations that are inside the domain by the facts alone", w, "%d of %d" % (len(seen), len(log)))


def known(f, c):
    if f.decide(c) is True or all(f.decide(y) is True for y in (c.args if c.kind == "and" else (c,))):
        return True
    try:
        return bool(settle(lambda _: (c, TRUE), f))
    except (TooBig, RecursionError):
        return False


def witness(ctx, X, rule, f):
    for env in samples(ctx, X, rule, f):
        return env
    return None


def start_value(X, name):
    v = X.real(name, lambda r, e: F(r.randint(0, 12), 12) if r.random() < 0.8 else F(r.randint(0, 1)))
    X.facts += [le(ZERO, v), le(v, ONE)]
    return v


def epsilon(X):
    e = X.real("eps", lambda r, e: r.choice([F(1, 10 ** 6), F(1, 1000), F(1, 5), F(1, 2), F(7, 10), F(9, 10), F(5, 2)]))
    X.facts += [lt(ZERO, e), lt(e, const(1000))]
    return e


def pair(r):
    return [r.get(n) for n in ("first", "second")]


def g_curve(ctx):
    def args(X, k):
        p, s, e = X.vec3("p"), start_value(X, "init"), epsilon(X)
        return [p, s, e, k], [s]
    for k, most in ((0, 3), (1, 3), (2, 4)) + (((2, 6), (3, 7)) if ctx.tier != "quick" else ()):
        rounds(ctx, "curve search", C + "::SearchParameter", False, k, args, lambda r: [r], most, None, 120)


def g_curve_binary(ctx):
    def args(X, k):
        return [X.vec3("p"), epsilon(X), k], None
    for k, most in ((0, 3), (1, 6), (2, 10)) + (((3, 14),) if ctx.tier != "quick" else ()):
        rounds(ctx, "curve bisection", C + "::BinarySearchParameter", False, k, args, lambda r: [r], most, None, 260)


def g_surface(ctx):
    def args(X, k):
        p, s, t, e = X.vec3("p"), start_value(X, "inu"), start_value(X, "inv"), epsilon(X)
        return [p, s, t, e, k], [s, t]
    for k, most in ((0, 3), (1, 3), (2, 4)):
        rounds(ctx, "surface search", S + "::SearchParameter", True, k, args, pair, most, None, 100)


def g_line(ctx):
    for d in (0, 1):
        def args(X, k):
            p, c, s, e = X.vec3("p"), start_value(X, "fix"), start_value(X, "init"), epsilon(X)
            return [p, const(d), c, s, e, k], [s]
        for k, most in ((0, 3), (1, 4), (2, 6)) + (((3, 8),) if ctx.tier != "quick" else ()):
            rounds(ctx, "search on a line, direction %d" % d, S + "::SearchParameterOn", True, k, args, pair, most, d, 100)


def g_line_binary(ctx):
    for d in (0, 1):
        def args(X, k):
            return [X.vec3("p"), const(d), start_value(X, "fix"), epsilon(X), k], None
        for k, most in ((0, 3), (1, 6), (2, 10)) + (((3, 14),) if ctx.tier != "quick" else ()):
            rounds(ctx, "bisection on a line, direction %d" % d, S + "::BinarySearchParameterOn", True, k, args, pair, most, d, 260)


GROUPS = [g_curve, g_curve_binary, g_surface, g_line, g_line_binary]
