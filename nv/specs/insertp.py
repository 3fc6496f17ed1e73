"""Knot insertion: the refinement formula."""
from .common import *
from .grid import view
from .steps import induction
from ..contracts import INSERT

C, S = NS + "Curve", NS + "Surface"


def span(p, u, U):
    return app("span", (p, u, U), "int")


def span2(u, U):
    """The span index written as the last knot not above the parameter (0 < u < 1)."""
    v = fresh("k")
    return sub(first(v, ZERO, U.dims[0], lt(u, U.get((v,)))), ONE)


def refined(p, n, U, u, pt, k=None):
    """Element demand of the refined points; pt(i) = the old point i (Cartesian components + weight)."""
    k = k if k is not None else app("span", (p, u, U), "int")

    def hom(q):
        return [mul(x, q[3]) for x in q[:3]] + [q[3]]

    def el(i):
        a = div(sub(u, U.get((i,))), sub(U.get((add(i, p),)), U.get((i,))))
        x, y = pt(i), pt(sub(i, ONE))
        hx, hy = hom(x), hom(y)
        m = [add(mul(a, s), mul(sub(ONE, a), t)) for s, t in zip(hx, hy)]
        mid = [div(q, m[3]) for q in m[:3]] + [m[3]]
        lo, hi = le(i, sub(k, p)), lt(k, i)
        return [ite(lo, x[c], ite(hi, y[c], mid[c])) for c in range(4)]
    return el


def inserted(U, u, k):
    return lambda i: ite(le(i, k), U.get((i,)), ite(eq(i, add(k, ONE)), u, U.get((sub(i, ONE),))))


def g_curve(ctx):
    X = Inputs(ctx.prog)
    c, p, n, U, P = X.curve()
    u = X.param("u", U, True)
    R = call(ctx, X, C + "::InsertKnot", c, [u], opaque=BASIC, pt=["double"])
    def sp(k):
        return {"Degree": p, "Knots": kspec(ctx, (addn(n, p, const(2)),), inserted(U, u, k))}, \
               {"ControlPoints": SArr((add(n, ONE),), refined(p, n, U, u, lambda i: P.get((i,)).c, k))}
    s, a = sp(span(p, u, U)), sp(span2(u, U))
    demand(ctx, "inserting a knot puts it in its sorted position and keeps the degree", X, R, R.ret, s[0], alts=[a[0]])
    demand(ctx, "inserting a knot replaces the affected points by the prescribed combinations and keeps all others", X, R, R.ret, s[1], alts=[a[1]])
    demand_bounds(ctx, "knot insertion stays inside knots and points", X, R)


def dirs(ctx):
    return (("U", 0), ("V", 1))


def surf_spec(ctx, D, E, P, d, u, k):
    """Demand on the surface after inserting u in direction d."""
    A, O = (D, E) if d == 0 else (E, D)
    p, n, U = A
    nu = D[1]

    def cell(i, j):
        a, o = (i, j) if d == 0 else (j, i)

        def pt(x):
            return (P.get((add(x, mul(o, nu)),)) if d == 0 else P.get((add(o, mul(x, nu)),))).c
        return refined(p, n, U, u, pt, k)(a)
    new = kspec(ctx, (addn(n, p, const(2)),), inserted(U, u, k))
    old = kspec(ctx, (O[2].dims[0],), lambda i: O[2].get((i,)))
    nu2, nv2 = (add(D[1], ONE), E[1]) if d == 0 else (D[1], add(E[1], ONE))
    return ({"DegreeU": D[0], "DegreeV": E[0], "KnotsU": new if d == 0 else old, "KnotsV": old if d == 0 else new,
             "ControlPoints": {"UCount": nu2, "VCount": nv2, "size": mul(nu2, nv2)}},
            {"ControlPoints": {"cells": SArr((nu2, nv2), cell)}}, nu2, nv2)


def viewed(ret, nu, nv):
    if isinstance(ret, Struct) and ret.has("ControlPoints"):
        return ret.with_("ControlPoints", view(ret.get("ControlPoints"), nu, nv))
    return ret


def g_surface(ctx):
    for nm, d in dirs(ctx):
        X = Inputs(ctx.prog)
        s, D, E, P = X.surface()
        A = (D, E)[d]
        u = X.param("u", A[2], True)
        R = call(ctx, X, S + "::InsertKnot" + nm, s, [u], opaque=BASIC, pt=["double"])
        a, b = surf_spec(ctx, D, E, P, d, u, span(A[0], u, A[2])), surf_spec(ctx, D, E, P, d, u, span2(u, A[2]))
        ret = viewed(R.ret, a[2], a[3])
        demand(ctx, "inserting a knot in direction %s changes that direction's knots and count only" % nm, X, R, ret, a[0], alts=[b[0]])
        demand(ctx, "inserting a knot in direction %s refines every row along it" % nm, X, R, ret, a[1], alts=[b[1]])
        demand_bounds(ctx, "knot insertion in direction %s stays inside knots and points" % nm, X, R)


class Step:
    """The step relation of the loop that builds the result, over an arbitrary valid loop-head state."""
    def __init__(self, ctx, X, R, parts, p, U, n, fill=None):
        """parts: {name: result array}; U: name of the knots among them."""
        self.why = None
        folds = {k: v for k, v in parts.items() if isinstance(v, AFold)}
        lids = {v.args[0] for v in folds.values()}
        if len(lids) != 1 or U not in folds:
            self.why = "the result is not built by one loop"
            return
        r = self.r = FOLDS[lids.pop()]
        self.leaf = {k: r["leaves"][v.args[1]] for k, v in folds.items()}
        own = {id(l) for l in self.leaf.values()}
        if r["E"] is not FALSE or any(l.sol is None and id(l) not in own for l in r["leaves"].values()):
            self.why = "other variables take part in the loop"
            return
        self.t = r["t"]
        self.N = r["N"]
        self.head = {k: l.phi for k, l in self.leaf.items()}
        self.next = {k: l.next for k, l in self.leaf.items()}
        self.init = {k: l.init for k, l in self.leaf.items()}
        if any(not isinstance(x, Arr) for x in list(self.head.values()) + list(self.next.values())):
            self.why = "unknown loop state"
            return
        tn, kn = single(self.t).args[0], self.head[U]
        self.p, self.n = p, sub(sub(kn.dims[0], p), ONE)
        X.knots[kn] = (p, self.n)

        def g(rng, env):
            t = rng.choice([0, 0, 1, 2])
            env.syms[tn] = F(t)
            if fill:
                fill(rng, env, [], t)
            env.arrays[kn.args[0]] = rknots(rng, int(ev(p, env)), int(ev(self.n, env)))
            if fill:
                fill(rng, env, env.arrays[kn.args[0]], t)
            for k, a in self.head.items():
                if a is not kn:
                    env.arrays[a.args[0]] = [(rreal(rng), rreal(rng), rreal(rng), rweight(rng)) for _ in range(int(ev(a.dims[0], env)))]
        X.gens.append(g)
        self.facts = R.facts0.extend([le(ZERO, self.t), lt(self.t, self.N), eq(kn.get((ZERO,)), ZERO), eq(kn.get((sub(kn.dims[0], ONE),)), ONE)])


def picks(name):
    """Inserted values, often at knots of the loop-head state."""
    def f(rng, env, ks, t):
        if not ks:
            m = t + rng.choice([1, 2])
            env.syms["m"] = F(m)
            pool = [v for a in ("U", "V") for v in env.arrays.get(a, ()) if 0 < v < 1] + [F(rng.randint(1, 30), 31)]
            env.arrays[name] = [rng.choice(pool) for _ in range(m)]
        elif rng.random() < 0.5:
            env.arrays[name][t] = rng.choice([v for v in ks if 0 < v < 1] + [F(rng.randint(1, 30), 31)])
    return f


def one(name):
    def f(rng, env, ks, t):
        if not ks:
            env.syms["times"] = F(t + rng.choice([1, 2]))
            ks = [v for a in ("U", "V") for v in env.arrays.get(a, ())]
        env.syms[name] = rng.choice([v for v in ks if 0 < v < 1] + [F(rng.randint(1, 30), 31)])
    return f


def setup(X, kind):
    """The two overloads that insert several values."""
    if kind == "list":
        m = X.int_("m", 0)
        L = mk(ASym, "L", ("real",), (m,))
        X.facts.append(forall(ZERO, m, lambda i: band(lt(ZERO, L.get((i,))), lt(L.get((i,)), ONE))))
        X.gens.append(lambda rng, env: env.arrays.__setitem__("L", [F(rng.randint(1, 30), 31) for _ in range(int(env.syms["m"]))]))
        return [L], ["span"], (lambda t: L.get((t,))), m, picks("L"), "inserting a list of values"
    m = X.int_("times", 0)
    u = X.real("u", lambda rng, env: F(rng.randint(1, 30), 31))
    X.facts += [lt(ZERO, u), lt(u, ONE)]
    return [u, m], ["double", "int"], (lambda t: u), m, one("u"), "inserting a value several times"


@induction
def several(ctx, X, R, Z, rule, spec, init, count, value):
    """Initial state, number of steps and the step itself."""
    if Z.why:
        ctx.add("open", rule, where(R.fn), Z.why)
        return
    demand(ctx, rule + ": starts from the given object", X, R, pack(Z.init), init)
    demand(ctx, rule + ": takes every value once", X, R, Z.N if Z.N.fv or True else None, count)
    u = value(Z.t)
    f = Z.facts.extend([lt(ZERO, u), lt(u, ONE)])
    U = Z.head["knots"]
    a, b = spec(U, u, span(Z.p, u, U)), spec(U, u, span2(u, U))
    demand(ctx, rule + ": every step is the single insertion", X, R, pack(Z.next), a, facts=f, alts=[b])


def pack(d):
    return mk(Struct, "state", tuple(sorted(d.items())))


def g_curve_several(ctx):
    for kind in ("list", "times"):
        X = Inputs(ctx.prog)
        c, p, n, U, P = X.curve()
        args, pt, val, count, fill, rule = setup(X, kind)
        R = call(ctx, X, C + "::InsertKnot", c, args, opaque=BASIC, pt=pt)
        if not R.ok or not isinstance(R.ret, Struct):
            ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
            continue
        demand(ctx, rule + " keeps the degree", X, R, R.ret, {"Degree": p})
        Z = Step(ctx, X, R, {"knots": knots_of(ctx.prog, R.ret.get("Knots")), "points": R.ret.get("ControlPoints")}, p, "knots", n, fill)

        def spec(U_, u, k):
            Q = Z.head["points"]
            return {"knots": SArr((add(U_.dims[0], ONE),), inserted(U_, u, k)),
                    "points": SArr((add(Z.n, ONE),), refined(p, Z.n, U_, u, lambda i: Q.get((i,)).c, k))}
        several(ctx, X, R, Z, rule, spec, {"knots": U, "points": P}, count, val)
        demand_bounds(ctx, rule + " stays inside knots and points", X, R)


def g_surface_several(ctx):
    """Single insertions are one symbol here: g_surface decides them."""
    op = dict(BASIC)
    op.update(INSERT)
    for nm, d in dirs(ctx):
        for kind in ("list", "times"):
            X = Inputs(ctx.prog)
            s, D, E, P = X.surface()
            args, pt, val, count, fill, rule = setup(X, kind)
            rule += " in direction " + nm
            A = (D, E)[d]
            p, n, U = A
            R = call(ctx, X, S + "::InsertKnot" + nm, s, args, opaque=op, pt=pt)
            if not R.ok or not isinstance(R.ret, Struct) or not isinstance(R.ret.get("ControlPoints"), Struct):
                ctx.add("open", rule, where(R.fn), R.error or "result of an unknown form")
                continue
            nu2, nv2 = (add(n, count), E[1]) if d == 0 else (D[1], add(n, count))
            old = kspec(ctx, ((E, D)[d][2].dims[0],), lambda i: (E, D)[d][2].get((i,)))
            demand(ctx, rule + " keeps the degrees and the other direction and adds one row per value", X, R, R.ret,
                   {"DegreeU": D[0], "DegreeV": E[0], ("KnotsV", "KnotsU")[d]: old, "ControlPoints": {"UCount": nu2, "VCount": nv2}})
            Z = Step(ctx, X, R, {"knots": knots_of(ctx.prog, R.ret.get("Knots" + nm)), "points": R.ret.get("ControlPoints").get("Values")}, p, "knots", n, fill)

            def spec(U_, u, k):
                Q = Z.head["points"]
                nu, nv = (Z.n, E[1]) if d == 0 else (D[1], Z.n)
                P2 = mk(AApp, "ins_points", (const(d), p, U_, u, Q, nu, nv), Q.shape, (mul(add(nu, ONE), nv) if d == 0 else mul(nu, add(nv, ONE)),))
                return {"knots": mk(AApp, "ins_knots", (U_, u), ("real",), (add(U_.dims[0], ONE),)), "points": P2}
            several(ctx, X, R, Z, rule, spec, {"knots": U, "points": P}, count, val)


GROUPS = [g_curve, g_surface, g_curve_several, g_surface_several]
