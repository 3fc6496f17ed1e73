"""Element accesses and unset values: the calls of the other demands, their accesses only."""
from .common import *
from . import evalp, insertp, rowsp, knots, knotsp, box, geom, grid, alignp, basisp, dersp, shapes, boxp

S = NS + "Surface"


def g_align(ctx):
    for U, V in (((1, ()), (1, ())), ((1, (1,)), (2, ())), ((2, (1,)), (1, (1,))), ((2, (2,)), (3, (1,))))[:3 if ctx.tier == "quick" else None]:
        X = Inputs(ctx.prog)
        s = shapes.Sheet(X, U, V)
        call(ctx, X, S + "::AlignParameterDomain", s.value(), [X.int_("u_axis", 0, 2), X.int_("v_axis", 0, 2)], unroll=60)


def g_box(ctx):
    for p, m, most in [(1, (1,), 1), (2, (), 3), (3, (), 3), (2, (1,), 2)][:None if ctx.tier != "quick" else 3]:
        boxp.one(ctx, p, m, most)


def only(g):
    """The accesses of the calls g makes."""
    def f(ctx):
        ctx.pick, ctx.pending, ctx.count = "bounds", [], 0
        try:
            g(ctx)
        finally:
            try:
                for rule, X, R in ctx.pending:
                    bounds_alone(ctx, rule, X, R)
            finally:
                ctx.pick, ctx.pending = None, ()
    f.__name__ = g.__name__
    return f


SKIP = {alignp.g_align}
ALL = [(m.__name__.split(".")[-1], g) for m in (evalp, insertp, rowsp, knots, knotsp, box, geom, grid, alignp, basisp, dersp, shapes) for g in m.GROUPS if g not in SKIP]
ALL += [("boundsp", g_align), ("boundsp", g_box)]
GROUPS = [only(g) for _, g in ALL]
g_evalp, g_insertp = [only(g) for g in (evalp.g_surface, insertp.g_surface)]
NAMED = [("%s.%s" % (n, g.__name__), only(g)) for n, g in ALL]
