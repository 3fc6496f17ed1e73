from .common import *


def grids(ctx):
    """Every instantiation of the grid that the analysed program contains."""
    out = []
    for name, r in ctx.prog["records"].items():
        if name.startswith(NS + "Grid<") and any(f["name"] == "Values" for f in r["fields"]):
            out.append(name)
    if not out:
        raise AnalysisBroken("no grid type found")
    return sorted(out)


def shape_for(X, cls):
    for f in rec_fields(X.prog, cls):
        if f["name"] == "Values":
            return X.I.shape_t(f["t"])[1]


def each(f):
    def g(ctx):
        X = Inputs(ctx.prog)
        seen = set()
        for cls in grids(ctx):
            sh = shape_for(X, cls)
            if sh[0] not in ("vec", "real", "int"):
                continue
            f(ctx, cls, sh)
    g.__name__ = f.__name__
    return g


def at(G, nu, u, v, f=None):
    return G.get((add(u, mul(v, nu)),), f)


def elem(X, name, sh):
    if sh[0] == "vec":
        return vec([X.real("%s.%d" % (name, i)) for i in range(sh[1] * sh[2])], sh[1], sh[2])
    return X.real(name)


@each
def g_get(ctx, cls, sh):
    for cst in (True, False):
        X = Inputs(ctx.prog)
        g, nu, nv, P = X.grid(shape=sh, cls=cls)
        u, v = X.int_("u", 0, sub(nu, ONE)), X.int_("v", 0, sub(nv, ONE))
        R = call(ctx, X, cls + "::Get", g, [u, v], const_=cst)
        demand(ctx, "element (u,v) is cell v*columns+u", X, R, R.ret, at(P, nu, u, v))
        demand_bounds(ctx, "element access inside the storage", X, R)
        if R.ok:
            rr = getattr(R, "retref", None)
            if R.kind == "lv" and isinstance(rr, Ref) and rr.args[0] != "this":
                ctx.add("refuted", "element access refers to the grid's own storage", where(R.fn), "refers to " + str(rr.args[0]))


@each
def g_rows(ctx, cls, sh):
    for nm, alongu in (("GetU", False), ("GetV", True)):
        X = Inputs(ctx.prog)
        g, nu, nv, P = X.grid(shape=sh, cls=cls)
        i = X.int_("i", 0, sub(nv if alongu else nu, ONE))
        R = call(ctx, X, cls + "::" + nm, g, [i])
        n = nu if alongu else nv
        demand(ctx, "%s returns the elements of that %s in order" % (nm, "row" if alongu else "column"), X, R, R.ret,
               SArr((n,), (lambda k: at(P, nu, k, i)) if alongu else (lambda k: at(P, nu, i, k))))
        demand_bounds(ctx, "%s stays inside the storage" % nm, X, R)


@each
def g_setrows(ctx, cls, sh):
    for nm, alongu in (("SetU", False), ("SetV", True)):
        X = Inputs(ctx.prog)
        g, nu, nv, P = X.grid(shape=sh, cls=cls)
        i = X.int_("i", 0, sub(nv if alongu else nu, ONE))
        Q = X.array("Q", nu if alongu else nv, sh)
        R = call(ctx, X, cls + "::" + nm, g, [i, Q])
        for two in (True,):
            demand(ctx, "%s replaces exactly the elements of that %s" % (nm, "row" if alongu else "column"), X, R, view(R.this, nu, nv),
                   {"UCount": nu, "VCount": nv, "cells": SArr((nu, nv), (lambda a, b: vite(eq(b, i), Q.get((a,)), at(P, nu, a, b))) if alongu
                                                              else (lambda a, b: vite(eq(a, i), Q.get((b,)), at(P, nu, a, b)))),
                    "size": mul(nu, nv)})
        demand_bounds(ctx, "%s stays inside the storage" % nm, X, R)


def view(g, nu, nv):
    """A grid value seen as a two-dimensional array (nu x nv cells)."""
    if not isinstance(g, Struct) or not isinstance(g.get("Values"), Arr):
        return g
    a, b = fresh("a"), fresh("b")
    V = g.get("Values")
    return mk(Struct, "grid view", (("UCount", g.get("UCount")), ("VCount", g.get("VCount")), ("size", V.dims[0]),
                                    ("cells", mk(AView, V, nu, nv))))


class AView(Arr):
    """(array, columns, rows): column-major storage as a two-dimensional array"""
    shape = property(lambda s: s.args[0].shape)
    def calc_dims(self): return (self.args[1], self.args[2])
    def get(self, idx, ctx=None):
        V, nu, nv = self.args
        return V.get((add(idx[0], mul(idx[1], nu)),), ctx)


@each
def g_insert(ctx, cls, sh):
    for nm, alongu in (("InsertU", True), ("InsertV", False)):
        X = Inputs(ctx.prog)
        g, nu, nv, P = X.grid(shape=sh, cls=cls)
        i = X.int_("i", 0, sub(nu if alongu else nv, ONE))
        q = elem(X, "q", sh)
        R = call(ctx, X, cls + "::" + nm, g, [i, q])
        Nu, Nv = (add(nu, ONE), nv) if alongu else (nu, add(nv, ONE))

        def cell(a, b):
            k = a if alongu else b
            prev = (lambda d: at(P, nu, sub(a, d), b)) if alongu else (lambda d: at(P, nu, a, sub(b, d)))
            return vite(lt(k, i), prev(ZERO), vite(eq(k, i), q, prev(ONE)))
        demand(ctx, "%s shifts the later ones by one, keeps every old element and fills the new cells" % nm, X, R, view(R.this, Nu, Nv),
               {"UCount": Nu, "VCount": Nv, "size": mul(Nu, Nv), "cells": SArr((Nu, Nv), cell)})
        demand_bounds(ctx, "%s stays inside the storage" % nm, X, R)


@each
def g_make(ctx, cls, sh):
    X = Inputs(ctx.prog)
    nu, nv = X.int_("nu", 1, None), X.int_("nv", 1, None)
    R = call(ctx, X, cls + "::Grid", None, [nu, nv])
    demand(ctx, "a grid of columns times rows elements", X, R, view(R.ret, nu, nv), {"UCount": nu, "VCount": nv, "size": mul(nu, nv)})
    X = Inputs(ctx.prog)
    nu, nv = X.int_("nu", 1, None), X.int_("nv", 1, None)
    q = elem(X, "q", sh)
    try:
        R = call(ctx, X, cls + "::Grid", None, [nu, nv, q])
    except AnalysisBroken:
        R = None
    if R is not None:
        demand(ctx, "a grid of columns times rows copies of the value", X, R, view(R.ret, nu, nv),
               {"UCount": nu, "VCount": nv, "size": mul(nu, nv), "cells": SArr((nu, nv), lambda a, b: q)})
    X = Inputs(ctx.prog)
    g, nu, nv, P = X.grid(shape=sh, cls=cls)
    R = call(ctx, X, cls + "::Count", g, [])
    demand(ctx, "the number of elements is columns times rows", X, R, R.ret, mul(nu, nv))


GROUPS = [g_get, g_rows, g_setrows, g_insert, g_make]
