"""Symbolic calls of a function of the exported program."""
import sys
from .terms import *
from . import terms as T
from .values import *
from .interp import Interp, State, Frame, GiveUp, clean
from .linear import Facts
from .frontend import AnalysisBroken

sys.setrecursionlimit(20000)


class Result:
    pass


def find(prog, qual, nparams=None, const=None, ptypes=None):
    c = []
    for k, f in prog["functions"].items():
        if f["qual"] != qual or f.get("lambda"):
            continue
        if nparams is not None and len(f["params"]) != nparams:
            continue
        if const is not None and bool(f.get("const")) != const:
            continue
        if ptypes is not None and not all(p in clean(a["t"]) for p, a in zip(ptypes, f["params"])):
            continue
        c.append(f)
    if not c:
        raise AnalysisBroken("function %s/%s not found" % (qual, nparams))
    return c[0]


def sym_of(I, t, name, facts):
    """Fresh symbolic input of a type."""
    t = clean(t)
    sh = I.shape_t(t)
    return sym_shape(sh, name, facts)


def sym_shape(sh, name, facts):
    k = sh[0]
    if k in ("int", "real"):
        return sym(name, k)
    if k == "bool":
        return bsym(name)
    if k == "vec":
        return vec([sym("%s.%d" % (name, i), "real") for i in range(sh[1] * sh[2])], sh[1], sh[2])
    if k == "arr":
        dims = tuple(sym("%s.size%s" % (name, "" if sh[2] == 1 else i), "int") for i in range(sh[2]))
        for d in dims:
            facts.append(le(ZERO, d))
        return mk(ASym, name, sh[1], dims)
    if k == "struct":
        return mk(Struct, sh[1], tuple((n, sym_shape(s, name + "." + n, facts)) for n, s in sh[2]))
    if k == "str":
        return mk(Str, "atom", name)
    return mk(Opaque, sh[1], name)


def run(prog, fn, this=None, args=None, facts=(), opaque=None, hooks=None, extra=None, budget=400000, unroll=None, script=None, lets=None):
    """Analyses fn with symbolic arguments; args: list of values (None = fresh symbol)."""
    I = Interp(prog, opaque=opaque, hooks=hooks, extra=extra)
    I.budget = budget
    if unroll:
        I.unroll = unroll
    if lets is not None:
        I.lets, I.named, I.namedfacts = lets, {}, []
    if script is not None:
        I.script, I.taken = list(script), []
    fs = list(facts)
    st = State({}, None, TRUE)
    fr = Frame(None)
    R = Result()
    R.I = I
    thisref = None
    vals = []
    if fn.get("cls") and not fn.get("static") and not fn.get("ctor"):
        if this is None:
            this = sym_of(I, fn["cls"], "this", fs)
        st.store["this"] = this
        I.vtypes["this"] = fn["cls"]
        thisref = mk(Ref, "this", ())
    R.this0 = this
    refs = []
    for i, p in enumerate(fn["params"]):
        v = args[i] if args and i < len(args) else None
        if v is None:
            t = clean(p["t"])
            if t.startswith("std::span<"):
                from .interp import targs
                base = "arg:" + p["name"] + ":data"
                st.store[base] = sym_of(I, "std::vector<%s>" % clean(targs(t)[0]), p["name"], fs)
                v = mk(Span, mk(Ref, base, ()), ZERO, st.store[base].dims[0])
            else:
                v = sym_of(I, t, p["name"] or "p%d" % i, fs)
        elif isinstance(v, Arr) and clean(p["t"]).startswith("std::span<"):
            base = "arg:" + p["name"] + ":data"
            st.store[base] = v
            v = mk(Span, mk(Ref, base, ()), ZERO, v.dims[0])
        st.store["arg:" + (p["name"] or str(i))] = v
        I.vtypes["arg:" + (p["name"] or str(i))] = p["t"]
        refs.append(mk(Ref, "arg:" + (p["name"] or str(i)), ()))
        vals.append(v)
    R.args = vals
    st.facts = Facts((), extra_axioms=extra).extend(fs)
    R.facts0 = st.facts
    R.fn = fn
    try:
        if fn.get("ctor"):
            R.ret = I.run_ctor_r(fn, refs, st, fr, fn["cls"])
            R.kind = "rv"
        else:
            R.kind, R.ret = I.invoke_v(fn, thisref, refs, st, fr)
            R.retref = R.ret
            if R.kind == "lv":
                R.ret = I.load(st, R.ret)
        R.ok = True
        R.error = None
    except (GiveUp, TooBig) as ex:
        R.ok = False
        R.error = "%s: %s" % (type(ex).__name__, ex)
        R.ret = unknown("analysis gave up")
    R.taken = list(getattr(I, "taken", ()))
    R.state = st
    R.this = st.store.get("this")
    R.argf = [st.store.get("arg:" + (p["name"] or str(i))) for i, p in enumerate(fn["params"])]
    R.throws = fr.throws
    R.obls = I.obls
    R.notes = I.notes
    R.guard = st.guard
    return R
