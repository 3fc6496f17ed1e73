"""Helpers shared by the demands."""
from ..terms import *
from .. import terms as T
from ..values import *
from ..inputs import *
from ..entry import find, run
from ..contracts import BASIC, ALGO
from ..check import *
from ..frontend import AnalysisBroken

NS = "libnurbs::"
VEC3 = ("vec", 3, 1)


def call(ctx, X, qual, this=None, args=None, nparams=None, const_=None, pt=None, opaque=None, hooks=None, facts=(), unroll=None, script=None, lets=None):
    fn = find(ctx.prog, qual, nparams if nparams is not None else (len(args) if args is not None else None), const_, pt)
    ctx.saw(fn)
    if script is None:
        script = getattr(ctx, "script", None)
    R = run(ctx.prog, fn, this, args, list(X.facts) + list(facts), opaque=opaque or {}, hooks=hooks, extra=X.extra, unroll=unroll, script=script, lets=lets)
    if getattr(ctx, "script", None) is not None and R.ok and not R.error:
        R.facts0 = R.facts0.extend(R.taken)
    if ctx.pick == "bounds" and (script is None or R.ok and not R.error):
        what = ", ".join(str(cval(a)) for a in args or () if isinstance(a, Poly) and cval(a) is not None)
        ctx.count = getattr(ctx, "count", 0) + 1
        ctx.pending.append(("%s%s, case %d: only existing elements are accessed and only values that were set" % (qual, " (%s)" % what if what else "", ctx.count), X, R))
    return R


def obj(X, cls, **fields):
    return default_rest(X.I, cls, fields)


def kv(X, arr):
    return knotvec(X.I, arr)


def kspec(ctx, dims, fn):
    """Demand on a KnotVector: its values."""
    return {knot_field(ctx.prog): SArr(dims, fn)}


def homo(P, i, comp, f=None):
    """Component of the homogeneous form of point i."""
    v = P.get((i,) if not isinstance(i, tuple) else i, f)
    return v.c[3] if comp == 3 else mul(v.c[comp], v.c[3])


def sumover(lo, hi, fn):
    v = fresh("k")
    return bsum(v, lo, hi, fn(v))


def forall(lo, hi, fn):
    """All k with lo <= k < hi."""
    v = fresh("k")
    return bforall(v, lo, hi, fn(v))


def exists(lo, hi, fn):
    v = fresh("k")
    return bexists(v, lo, hi, fn(v))


def unchanged_struct(v):
    return v
