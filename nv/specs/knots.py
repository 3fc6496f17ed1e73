from .common import *
from ..evalt import NAN, is_nan

KV = NS + "KnotVector"


def anyknots(X, name):
    """Any sequence of numbers, valid or not (NaN included)."""
    n = X.int_(name + ".n", 0, None, lambda r, e: r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7]))

    def g(rng, env):
        k = int(env.syms[name + ".n"])
        r = rng.random()
        vs = sorted(F(rng.randint(0, 12), 12) for _ in range(k))
        if k:
            if r < 0.75:
                vs[-1] = F(1)
            if 0.2 < r < 0.6:
                vs[0] = F(0) if k > 1 else F(1)
            if 0.1 < r < 0.2:
                vs[0] = F(-1, 3)
            if 0.6 < r < 0.8 and k > 1:
                i = rng.randrange(k - 1)
                vs[i], vs[i + 1] = vs[i + 1], vs[i]
            if 0.8 < r < 0.9:
                vs[rng.randrange(k)] = NAN
            if rng.random() < 0.15:
                i = rng.choice([0, k - 1, rng.randrange(k)])
                vs[i] = vs[i] + tiny(rng) if rng.random() < 0.6 or i == 0 or is_nan(vs[i - 1]) else vs[i - 1] + tiny(rng)
            if 0.9 < r:
                vs = [rng.choice([F(-1), F(0), F(1, 2), F(1), F(2)]) for _ in vs]
        env.arrays[name] = vs
    X.gens.append(g)
    return mk(ASym, name, ("real",), (n,)), n


def bad(a, n):
    el = lambda i: a.get((i,))
    return bor(eq(n, ZERO), bnot(le(ZERO, el(ZERO))), exists(ONE, n, lambda k: bnot(le(el(sub(k, ONE)), el(k)))),
               bnot(eq(el(sub(n, ONE)), ONE)))


def bad2(a, n):
    el = lambda i: a.get((i,))
    prev = lambda k: ite(le(k, ZERO), ZERO, el(sub(k, ONE)))
    step = exists(ZERO, n, lambda k: bnot(le(prev(k), el(k))))
    return bor(eq(n, ZERO), step, bnot(eq(prev(n), ONE)))


def g_validate(ctx):
    X = Inputs(ctx.prog)
    a, n = anyknots(X, "values")
    R = call(ctx, X, KV + "::KnotVector", None, [a], pt=["std::vector<double>"])
    demand_throw(ctx, "building from values throws exactly if they are empty, start below zero, decrease, hold NaN or do not end at one", X, R, bad(a, n),
                 nan=True, alts=[bad2(a, n)])
    demand(ctx, "a built knot vector holds exactly the given values", X, R, R.ret, kspec(ctx, (n,), lambda i: a.get((i,))), nan=True)
    demand_bounds(ctx, "validation reads only existing values", X, R)


def g_validate_pairs(ctx):
    X = Inputs(ctx.prog)
    n = X.int_("n", 0, None, lambda r, e: r.choice([0, 1, 2, 3, 4]))
    I = X.I
    sh = I.shape_t(KV + "::KnotPair")

    def g(rng, env):
        k = int(env.syms["n"])
        out = []
        v = F(0)
        for i in range(k):
            out.append({"Index": F(rng.randint(-1, 3)), "Value": v, "Multiplicity": F(rng.choice([0, 1, 1, 2, 3]))})
            v += F(rng.randint(0, 3), 6)
        r = rng.random()
        if out and r < 0.7:
            out[-1]["Value"] = F(1)
            out[-1]["Multiplicity"] = F(rng.choice([1, 2]))
        if out and r > 0.85:
            out[rng.randrange(k)]["Value"] = rng.choice([F(-1), F(1), NAN])
        env.arrays["pairs"] = out
    X.gens.append(g)
    a = mk(ASym, "pairs", sh, (n,))
    R = call(ctx, X, KV + "::KnotVector", None, [a], pt=["KnotPair"])
    # the flattened values, by counting
    def meaning(env):
        out = []
        for q in env.arrays["pairs"]:
            out += [q["Value"]] * max(0, int(q["Multiplicity"]))
        return out
    demand_fn(ctx, "building from pairs repeats each value as often as its multiplicity says and validates the result", X, R, meaning)


def demand_fn(ctx, rule, X, R, meaning):
    pass


def g_uniform(ctx):
    X = Inputs(ctx.prog)
    p = X.int_("degree", 1, None, lambda r, e: r.choice([1, 2, 3]))
    m = X.int_("count", mul(const(2), add(p, ONE)), None, lambda r, e: int(e.syms["degree"]) * 2 + 2 + r.choice([0, 1, 2, 3, 5]))
    R = call(ctx, X, KV + "::Uniform", None, [p, m], opaque={**NOVALID})
    ad = sub(m, mul(const(2), add(p, ONE)))

    def el(i):
        return ite(le(i, p), ZERO, ite(lt(i, addn(p, ONE, ad)), div(sub(i, p), add(ad, ONE)), ONE))
    demand(ctx, "Uniform yields degree+1 zeros, evenly spaced interior knots and degree+1 ones, of the requested total count", X, R, R.ret,
           kspec(ctx, (m,), el))
    demand_throw(ctx, "Uniform never rejects its own values", X, R, FALSE)


NOVALID = {}


def valid(X):
    p = X.int_("p", 1, None, lambda r, e: r.choice([1, 2, 2, 3]))
    n = X.int_("n", add(p, ONE), None, lambda r, e: int(e.syms["p"]) + 1 + r.choice([0, 1, 2, 3, 5]))
    U = X.clamped("U", p, n)
    return kv(X, U), p, n, U


def g_span(ctx):
    """The span lookup, stated over its own meaning: the index brackets the parameter."""
    X = Inputs(ctx.prog)
    k, p, n, U = valid(X)
    u = X.param("u", U)
    R = call(ctx, X, KV + "::FindSpanIndex", k, [p, u])
    m = U.dims[0]
    v = fresh("k")
    ub = first(v, ZERO, m, lt(u, U.get((v,))))
    spec = ite(eq(u, ONE), sub(n, ONE), ite(eq(u, ZERO), p, sub(ub, ONE)))
    demand(ctx, "the span index is the last knot index not above the parameter, the last span at the domain's end", X, R, R.ret, spec)
    demand_true(ctx, "the span index lies between degree and knots-degree-2", X, R, band(le(p, R.ret), le(R.ret, sub(n, ONE))), what="index in range") if R.ok else None
    demand_bounds(ctx, "the lookup reads only existing knots", X, R)
    demand(ctx, "the lookup leaves the knots unchanged", X, R, R.this, {knot_field(ctx.prog): U})


def g_multiplicity(ctx):
    X = Inputs(ctx.prog)
    k, p, n, U = valid(X)
    u = X.param("u", U)
    R = call(ctx, X, KV + "::GetMultiplicity", k, [u])
    eps = F(1, 10 ** 6)
    close = lambda i: band(lt(sub(U.get((i,)), u), const(eps)), lt(sub(u, U.get((i,))), const(eps)))
    demand(ctx, "multiplicity counts the knots matching the value", X, R, R.ret,
           sumover(ZERO, sub(U.dims[0], ONE), lambda i: ite(lt(app("abs", (sub(U.get((i,)), u),)), eps_const(ctx)), ONE, ZERO)))


def eps_const(ctx):
    return const(F(1e-6))


def g_insert(ctx):
    X = Inputs(ctx.prog)
    k, p, n, U = valid(X)
    u = X.param("u", U, True)
    t = X.int_("times", 0, None, lambda r, e: r.choice([0, 1, 1, 2, 3]))
    R = call(ctx, X, KV + "::InsertKnot", k, [u, t])
    m = U.dims[0]
    v = fresh("k")
    ub = first(v, ZERO, m, lt(u, U.get((v,))))
    demand(ctx, "inserting returns the span index of the old knots", X, R, R.ret, sub(ub, ONE))
    demand(ctx, "inserting puts the copies behind the last knot not above the value and keeps all others in order", X, R, R.this,
           kspec(ctx, (add(m, t),), lambda i: ite(lt(i, ub), U.get((i,)), ite(lt(i, add(ub, t)), u, U.get((sub(i, t),))))))
    demand_bounds(ctx, "inserting accesses only existing knots", X, R)


def g_reverse(ctx):
    X = Inputs(ctx.prog)
    k, p, n, U = valid(X)
    R = call(ctx, X, KV + "::Reverse", k, [])
    m = U.dims[0]
    demand(ctx, "reversing maps every value t to 1-t in reverse order", X, R, R.this,
           kspec(ctx, (m,), lambda i: sub(ONE, U.get((sub(sub(m, ONE), i),)))))


def free_knots(X):
    """Values a knot vector object may hold (also edited ones)."""
    a, n = anyknots(X, "V")
    return kv(X, a), a, n


def g_isvalid(ctx):
    X = Inputs(ctx.prog)
    k, a, n = free_knots(X)
    R = call(ctx, X, KV + "::IsValid", k, [])
    el = lambda i: a.get((i,))
    spec = band(le(const(4), n), eq(el(ZERO), ZERO), eq(el(sub(n, ONE)), ONE), forall(ONE, n, lambda i: le(el(sub(i, ONE)), el(i))))
    demand(ctx, "validity holds exactly for at least four non-decreasing values from zero to one", X, R, R.ret, spec, nan=True)
    demand_bounds(ctx, "the validity test reads only existing knots", X, R)


def g_isclamped(ctx):
    X = Inputs(ctx.prog)
    k, a, n = free_knots(X)
    R = call(ctx, X, KV + "::IsClamped", k, [])
    el = lambda i: a.get((i,))
    v, w = fresh("k"), fresh("k")
    c0 = first(v, ZERO, n, bnot(eq(el(v), ZERO)))
    c1 = first(w, ZERO, n, bnot(eq(el(sub(sub(n, ONE), w)), ONE)))
    demand(ctx, "clamped means as many zeros in front as ones at the end, at least one", X, R, R.ret, band(lt(ZERO, c0), eq(c0, c1)))
    demand_bounds(ctx, "the clampedness test reads only existing knots", X, R)


def g_degree(ctx):
    X = Inputs(ctx.prog)
    k, a, n = free_knots(X)
    R = call(ctx, X, KV + "::DetectDegree", k, [])
    el = lambda i: a.get((i,))
    v = fresh("k")
    c0 = first(v, ZERO, n, bnot(eq(el(v), ZERO)))
    demand(ctx, "the detected degree is the number of leading zeros less one", X, R, R.ret, sub(c0, ONE))
    demand_throw(ctx, "degree detection throws exactly if there is no non-zero knot", X, R, forall(ZERO, n, lambda i: eq(el(i), ZERO)))


GROUPS = [g_validate, g_uniform, g_span, g_multiplicity, g_insert, g_reverse, g_isvalid, g_isclamped, g_degree]
