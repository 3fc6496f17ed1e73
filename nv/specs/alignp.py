"""Alignment of the parameter domain and transformation: only the demanded changes, applied to every part together."""
from .common import *
from .rowsp import kept
from ..check import leaves, settle, samples, evcmp, Differs, thrown, where, valuation, num
from ..evalt import evb, Undet, Uninit, OutOfRange
from ..simp import simp, tidy, split_atom, cases

S, C = NS + "Surface", NS + "Curve"


def variant(ctx, D, E, P, swap, ru, rv):
    """The surface with its directions exchanged (or not) and then the first and the second reversed (or not)."""
    A, O = (E, D) if swap else (D, E)

    def kn(Q, rev):
        n = Q[2].dims[0]
        return kspec(ctx, (n,), (lambda i: sub(ONE, Q[2].get((subn(n, ONE, i),)))) if rev else (lambda i: Q[2].get((i,))))
    n, m = A[1], O[1]

    def cell(i, j):
        a = subn(n, ONE, i) if ru else i
        b = subn(m, ONE, j) if rv else j
        if swap:
            a, b = b, a
        return list(P.get((add(a, mul(b, D[1])),)).c)
    return {"DegreeU": A[0], "DegreeV": O[0], "KnotsU": kn(A, ru), "KnotsV": kn(O, rv),
            "ControlPoints": {"UCount": n, "VCount": m, "size": mul(n, m), "cells": SArr((n, m), cell)}}


def subn(a, *bs):
    for b in bs:
        a = sub(a, b)
    return a


def gate(v, kf):
    """A condition the parts of the result still depend on."""
    g = v.get("ControlPoints")
    parts = [v.get("DegreeU"), v.get("DegreeV"), v.get("KnotsU").get(kf), v.get("KnotsV").get(kf), g.get("UCount"), g.get("VCount"), g.get("Values")]
    for x in parts:
        if isinstance(x, AIte):
            return x.args[0]
        if isinstance(x, Poly):
            c = split_atom(x)
            if c is not None:
                return c
        if isinstance(x, Arr):
            for d in x.dims:
                c = split_atom(d)
                if c is not None:
                    return c
            if isinstance(x, (ALoop,)) and isinstance(x.base, AIte):
                return x.base.args[0]
    return None


def meets(v, spec, n, m, facts):
    out = []
    g = v.get("ControlPoints")
    vals = g.get("Values")
    want = dict(spec)
    sg = want.pop("ControlPoints")
    leaves("result", lambda f: v, lambda f: want, facts, out)
    leaves("result.ControlPoints", lambda f: g, lambda f: {"UCount": n, "VCount": m}, facts, out)
    leaves("size", lambda f: vals.dims[0], lambda f: mul(n, m), facts, out)
    i, j = fresh("i"), fresh("j")
    f2 = facts.extend([le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, m)])
    leaves("cells", lambda f: vals.get((add(i, mul(j, n)),), f), lambda f: sg["cells"].fn(i, j), f2, out)
    for pth, th, ff in out:
        if th is None or not settle(th, ff, depth=7, budget=[80]):
            return False
    return True


def g_align(ctx):
    align(ctx, None)


def g_align_fixed(ctx):
    """Constant counts, so that every loop unrolls."""
    for z in ((1, 1, 2, 6), (2, 1, 5, 4), (1, 2, 7, 3)):
        align(ctx, z)


def align(ctx, sizes):
    X = Inputs(ctx.prog)
    s, D, E, P = X.surface(sizes=sizes)
    ax = [X.int_("u_axis", 0, 2), X.int_("v_axis", 0, 2)]
    R = call(ctx, X, S + "::AlignParameterDomain", s, ax, opaque=BASIC, unroll=60 if sizes else None)
    rule = "aligning returns the surface with directions exchanged or reversed, degrees, knots and control points together"
    if sizes:
        rule += " (degrees %d and %d, %d x %d points)" % sizes
    w = where(R.fn)
    if not R.ok:
        ctx.add("open", rule, w, R.error)
        return
    kf = knot_field(ctx.prog)
    allv = [(sw, ru, rv) for sw in (0, 1) for ru in (0, 1) for rv in (0, 1)]
    th = thrown(R)
    nleaf, bad = [0], []
    found = set()

    def rec(facts, depth):
        if facts.infeasible([]):
            return
        v = tidy(simp(R.ret, facts), facts)
        c = gate(v, kf)
        if c is not None and depth > 0:
            for x in cases(c):
                f = facts.extend([x])
                if f is facts:
                    bad.append("a condition that cannot be split")
                    return
                rec(f, depth - 1)
                if bad:
                    return
            return
        nleaf[0] += 1
        if c is not None or nleaf[0] > 200:
            bad.append("too many cases")
            return
        for k in sorted(allv, key=lambda z: z not in found):
            A, O = (E, D) if k[0] else (D, E)
            if v.get("DegreeU") is not A[0] or v.get("DegreeV") is not O[0]:
                continue
            if meets(v, variant(ctx, D, E, P, *k), A[1], O[1], facts):
                found.add(k)
                return
        bad.append("one combination of decisions is not recognised")
    try:
        if sizes:
            bad.append("compared on valuations only")
        else:
            rec(R.facts0.extend([bnot(th)]), 14)
    except (TooBig, RecursionError):
        bad.append("terms too large")
    ctx.nobl += nleaf[0]
    if not bad:
        ctx.add("proved", rule, w, "%d combinations of decisions, %d different outcomes" % (nleaf[0], len(found)))
        return
    ns = und = 0
    for env in samples(ctx, X, R.fn["key"] + rule, R.facts0):
        try:
            if evb(th, env):
                continue
        except (Undet, Uninit, OutOfRange):
            continue
        first_, ok, cut = None, False, False
        for k in allv:
            st = {"undet": 0, "n": 0}
            try:
                A, O = (E, D) if k[0] else (D, E)
                n, m = A[1], O[1]
                spec = variant(ctx, D, E, P, *k)
                sg = spec.pop("ControlPoints")
                g = R.ret.get("ControlPoints")
                evcmp("result", R.ret, spec, env, st)
                evcmp("result.ControlPoints", g, {"UCount": n, "VCount": m}, env, st)
                evcmp("result.ControlPoints", g, {"Values": SArr((mul(n, m),), lambda i: sg["cells"].fn(imod(i, n), idiv(i, n)))}, env, st)
                ok = True
                cut = cut or st["undet"]
                break
            except Differs as ex:
                first_ = first_ or ex.args
            except RecursionError:
                cut = True
        ns += 1
        if sizes and ns > 160:
            break
        if cut:
            und += 1
        elif not ok:
            p_, got, want = first_
            ctx.add("refuted", rule, w, "the result is none of the eight exchanged or reversed forms of the surface (as it was, %s would be %s instead of %s)" %
                    (p_, num(want), num(got)), valuation(env))
            return
    ctx.add("agrees" if ns and not und else "open", rule, w, "%s; %d valuations, %d undetermined" % (bad[0], ns, und))


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = add(r, mul(x, y))
    return r


def g_transform(ctx):
    for cls in (C, S):
        X = Inputs(ctx.prog)
        if cls == C:
            o, p, n, U, P = X.curve()
        else:
            o, D, E, P = X.surface()
        M = X.mat3("R")
        R = call(ctx, X, cls + "::Transform", o, [M], opaque=BASIC)

        def new(i):
            x = P.get((i,)).c
            return [dot([M.c[r * 3 + k] for k in range(3)], x[:3]) for r in range(3)] + [x[3]]
        if cls == C:
            spec = {"Degree": p, "Knots": kspec(ctx, (U.dims[0],), lambda i: U.get((i,))), "ControlPoints": SArr((n,), new)}
        else:
            spec = {"DegreeU": D[0], "DegreeV": E[0], "KnotsU": kspec(ctx, (D[2].dims[0],), kept(D)), "KnotsV": kspec(ctx, (E[2].dims[0],), kept(E)),
                    "ControlPoints": {"UCount": D[1], "VCount": E[1], "Values": SArr((mul(D[1], E[1]),), new)}}
        demand(ctx, "transforming a %s moves every position by the matrix and keeps weights, knots and degrees" % ("curve" if cls == C else "surface"), X, R, R.ret, spec)
        demand_bounds(ctx, "transforming stays inside the arrays", X, R)


GROUPS = [g_align, g_align_fixed, g_transform]
