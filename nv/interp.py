"""Structured abstract interpretation of the exported program into gated value graphs.

Every variable is bound to a symbolic value graph (terms.py / values.py); branches are joined by gating, loops are
summarised by solving their recurrences (induction variables, accumulations, write families, last values, searches);
what cannot be solved becomes a recorded step relation (FOLDS) or an unknown.  No path is enumerated and nothing of the
program is executed: each loop body is traversed with symbolic loop-head values.
"""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from . import values as V
from .linear import Facts
from .simp import tidy, same_at

DBG = False


class GiveUp(Exception):
    """The construct is outside the domain; the caller treats the result as unknown."""


class State:
    __slots__ = ("store", "facts", "guard")

    def __init__(self, store, facts, guard):
        self.store, self.facts, self.guard = store, facts, guard

    def copy(self):
        return State(dict(self.store), self.facts, self.guard)

    def assume(self, c):
        self.facts = self.facts.extend([c])

    def fork(self, c):
        return State(dict(self.store), self.facts.extend([c]), band(self.guard, c))


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.returns = []   # (guard, state, value)
        self.throws = []    # (guard, info, facts)
        self.loops = []     # stack of dicts with breaks / continues


# ---- types ------------------------------------------------------------------------------------------------

def clean(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith("&&"): t = t[:-2].strip()
        elif t.endswith("&"): t = t[:-1].strip()
        if t.startswith("const "): t = t[6:]
        if t.startswith("volatile "): t = t[9:]
        if t.endswith(" const"): t = t[:-6]
        if t == o:
            return t


def targs(t):
    i = t.index("<")
    d, cur, out = 0, "", []
    for ch in t[i + 1:t.rindex(">")]:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char",
        "long long", "unsigned long long", "std::size_t"}
REALS = {"double", "float", "long double"}


def mat_type(t):
    """(rows, cols) with -1 for dynamic, of an Eigen matrix type or expression type, else None."""
    t = clean(t)
    if t.startswith("Eigen::Matrix<") or t.startswith("Eigen::Array<"):
        a = targs(t)
        try:
            return int(a[1]), int(a[2])
        except Exception:
            return None
    if t.startswith("Eigen::") and "<" in t:
        a = targs(t)
        if t.startswith("Eigen::Block<") and len(a) >= 3:
            try: return int(a[1]), int(a[2])
            except Exception: return None
        for x in a:
            m = mat_type(x)
            if m:
                return m
    return None


# ---- evaluation of Eigen-like values ----------------------------------------------------------------------

def sqrt_(p):
    c = cval(p)
    if c is not None and c >= 0:
        from math import isqrt
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    return app("sqrt", (p,))


def abs_(p):
    c = cval(p)
    if c is not None:
        return const(abs(c))
    if p.terms[0][1] < 0:
        p = neg(p)
    return app("abs", (p,), "int" if isint(p) else "real")


APPHOOKS["sqrt"] = lambda p: sqrt_(p)
APPHOOKS["abs"] = lambda p: abs_(p)


def arr_map(f, *xs):
    """Elementwise operation on dynamic arrays (scalars are broadcast)."""
    a = next(x for x in xs if isinstance(x, Arr))
    vs = tuple(fresh("e") for _ in a.dims)
    return mk(ALam, a.dims, vs, f(*[x.get(vs) if isinstance(x, Arr) else x for x in xs]), ("real",))


def emap(f, *xs):
    if any(isinstance(x, Unknown) for x in xs):
        return unknown("operand")
    vs = [x for x in xs if isinstance(x, Vec)]
    if vs:
        r, c = vs[0].rows, vs[0].cols
        if any(isinstance(x, Arr) for x in xs):
            raise GiveUp("mixed fixed/dynamic Eigen operands")
        if any((v.rows, v.cols) != (r, c) for v in vs):
            if all(v.rows * v.cols == r * c for v in vs):
                pass
            else:
                raise GiveUp("Eigen shapes")
        return vec([f(*[x.c[i] if isinstance(x, Vec) else x for x in xs]) for i in range(r * c)], r, c)
    if any(isinstance(x, Arr) for x in xs):
        return arr_map(f, *xs)
    return f(*xs)


class Interp:
    def __init__(self, prog, opaque=None, hooks=None, extra=None, maxdepth=30):
        self.prog = prog
        self.fns = prog["functions"]
        self.records = prog["records"]
        self.opaque = opaque or {}
        self.hooks = hooks or {}
        self.extra = extra
        self.obls = []          # bounds obligations
        self.notes = []         # limitations met
        self.depth = 0
        self.maxdepth = maxdepth
        self.nloc = 0
        self.nloop = 0
        self.wlog = None
        self.discover = 0
        self.frames = []
        self.loopinfo = []      # records of every finally analysed loop
        self.budget = 400000
        self.globals_store = {}
        self.vtypes = {}

    # -- locations ------------------------------------------------------------------------------------------
    def new(self, st, name, val):
        self.nloc += 1
        loc = "%s@%d" % (name, self.nloc)
        st.store[loc] = val if self.lets is None else self.brief(val, st)
        return mk(Ref, loc, ())

    lets = None             # the inputs, if long scalars get names

    def brief(self, v, st):
        """A long scalar is replaced by a name for it (whose value is that of the term); kept of it: signs and the unit interval."""
        if isinstance(v, Vec):
            return vec([self.brief(x, st) for x in v.c], v.rows, v.cols) if any(isinstance(x, Poly) and len(x.terms) > 4 for x in v.c) else v
        if not isinstance(v, Poly) or len(v.terms) <= 4 or isint(v) or v.taint:
            return v
        s = self.named.get(v)
        if s is None:
            s = self.named[v] = fresh("let", "real")
            self.lets.define(s, v)
            for c in (le(ZERO, v), le(v, ONE)):
                if st.facts.decide(c) is True:
                    self.namedfacts.append((s, le(ZERO, s) if c is le(ZERO, v) else le(s, ONE)))
        new = [c for x, c in self.namedfacts if x is s]
        if new:
            st.facts = st.facts.extend(new)
        return s

    def load(self, st, ref):
        if isinstance(ref, RefIte):
            c, a, b = ref.args
            return vite(c, self.load(st, a), self.load(st, b))
        if not isinstance(ref, Ref):
            return unknown("load through " + type(ref).__name__)
        if ref.root not in st.store:
            return unknown("location " + str(ref.root))
        v = st.store[ref.root]
        for s in ref.path:
            v = self.step(v, s, st)
        return v

    def step(self, v, s, st):
        k = s[0]
        if isinstance(v, Unknown):
            return v
        if k == "f":
            if isinstance(v, Struct):
                return v.get(s[1]) if v.has(s[1]) else unknown("field " + s[1])
            return unknown("field of " + type(v).__name__)
        if k == "i":
            if isinstance(v, Arr):
                return v.get(s[1], st.facts)
            return unknown("index of " + type(v).__name__)
        if k == "c":
            if isinstance(v, Vec):
                if s[2] is None:
                    return v.c[s[1][0]]
                return vec([v.c[i] for i in s[1]], s[2], s[3])
            if isinstance(v, Arr):
                raise GiveUp("component view of dynamic array")
            return unknown("component of " + type(v).__name__)
        if k in ("row", "col"):
            if isinstance(v, Arr) and len(v.dims) == 2:
                j = fresh("e")
                if k == "row":
                    return mk(ALam, (v.dims[1],), (j,), v.get((s[1], j), st.facts), v.shape)
                return mk(ALam, (v.dims[0],), (j,), v.get((j, s[1]), st.facts), v.shape)
            return unknown("row/col")
        if k == "T":
            if isinstance(v, Vec):
                return vec([v.c[i * v.cols + j] for j in range(v.cols) for i in range(v.rows)], v.cols, v.rows)
            return unknown("transpose")
        raise GiveUp("path step " + str(k))

    def store_(self, st, ref, val):
        if isinstance(ref, RefIte):
            c, a, b = ref.args
            va, vb = self.load(st, a), self.load(st, b)
            self.store_(st, a, vite(c, val, va))
            vb = self.load(st, b)
            self.store_(st, b, vite(c, vb, val))
            return
        if not isinstance(ref, Ref):
            self.note("store through " + type(ref).__name__)
            self.havoc(st, "store through unknown pointer")
            return
        if self.wlog is not None:
            fp = []
            for s in ref.path:
                if s[0] != "f":
                    break
                fp.append(s[1])
            self.wlog[(ref.root, tuple(fp))] = True
        if self.lets is not None:
            val = self.brief(val, st)
        st.store[ref.root] = self.upd(st.store.get(ref.root), ref.path, val, st)

    def upd(self, v, path, val, st):
        if not path:
            if isinstance(v, Arr) and isinstance(val, Arr):
                return val
            return val
        s = path[0]
        k = s[0]
        if v is None or isinstance(v, Unknown):
            return v if v is not None else unknown("unset")
        if k == "f":
            if isinstance(v, Struct):
                old = v.get(s[1]) if v.has(s[1]) else unknown("field")
                return v.with_(s[1], self.upd(old, path[1:], val, st))
            return unknown("field store")
        if k == "i":
            if isinstance(v, Arr):
                if len(path) > 1:
                    nv = self.upd(v.get(s[1], st.facts), path[1:], val, st)
                else:
                    nv = val
                if isinstance(v, AStore) and v.args[1] == s[1]:
                    v = v.args[0]
                return mk(AStore, v, s[1], nv)
            return unknown("index store")
        if k == "c":
            if isinstance(v, Vec):
                cs = list(v.c)
                if s[2] is None:
                    cs[s[1][0]] = self.topoly(val)
                else:
                    cur = vec([v.c[i] for i in s[1]], s[2], s[3])
                    nv = self.upd(cur, path[1:], val, st) if len(path) > 1 else val
                    if not isinstance(nv, Vec) or len(nv.c) != len(s[1]):
                        nv = vec([unk("block store")] * len(s[1]), s[2], s[3])
                    for i, j in enumerate(s[1]):
                        cs[j] = nv.c[i]
                return vec(cs, v.rows, v.cols)
            return unknown("component store")
        if k in ("row", "col"):
            if isinstance(v, Arr) and len(v.dims) == 2 and isinstance(val, (Arr, Poly)) and len(path) == 1:
                j = fresh("w")
                n = v.dims[1] if k == "row" else v.dims[0]
                idx = (s[1], j) if k == "row" else (j, s[1])
                x = val.get((j,), st.facts.extend([le(ZERO, j), lt(j, n)])) if isinstance(val, Arr) else val
                return mk(ALoop, v, (mk(Write, ((j, ZERO, sub(n, ONE)),), TRUE, idx, x),))
            return mk(AUnk, "row store", next(T._fresh), v.shape, v.dims, None) if isinstance(v, Arr) else unknown("row store")
        return unknown("store step " + str(k))

    def havoc(self, st, reason):
        for k in list(st.store):
            if self.wlog is not None:
                self.wlog[(k, ())] = True
            st.store[k] = unknown(reason)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # -- conversions ----------------------------------------------------------------------------------------
    def topoly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, B):
            return ite(v, ONE, ZERO)
        if isinstance(v, Vec) and len(v.c) == 1:
            return self.topoly(v.c[0])
        return unk("scalar from " + type(v).__name__)

    def tobool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Poly):
            return ne(v, ZERO)
        if isinstance(v, (Ref, Closure)):
            return TRUE
        return unkb("bool from " + type(v).__name__)

    # -- default values -------------------------------------------------------------------------------------
    def shape_t(self, t):
        t = clean(t)
        if t in INTS: return ("int",)
        if t in REALS: return ("real",)
        if t == "bool": return ("bool",)
        m = mat_type(t) if t.startswith("Eigen::Matrix<") else None
        if m:
            if m[0] < 0 and m[1] < 0: return ("arr", ("real",), 2)
            if m[0] < 0 or m[1] < 0: return ("arr", ("real",), 1)
            return ("vec", m[0], m[1])
        if t.startswith("std::vector<") or t.startswith("std::span<") or t.startswith("std::array<") or t.startswith("std::deque<"):
            return ("arr", self.shape_t(targs(t)[0]), 1)
        if t.startswith("std::pair<"):
            a = targs(t)
            return ("struct", t, (("first", self.shape_t(a[0])), ("second", self.shape_t(a[1]))))
        if t.startswith("std::tuple<"):
            return ("struct", t, tuple(("get%d" % i, self.shape_t(x)) for i, x in enumerate(targs(t))))
        if t.startswith("std::basic_string<") or t in ("std::string",):
            return ("str",)
        if self.rec(t):
            r = self.rec(t)
            return ("struct", r["name"], tuple((f["name"], self.shape_t(f["t"])) for f in r["fields"]))
        if any(q == t for q in self.prog["enums"]) or t.split("::")[-1] in {q.split("::")[-1] for q in self.prog["enums"]}:
            return ("int",)
        return ("opaque", t)

    def rec(self, t):
        t = clean(t)
        r = self.records.get(t)
        if r is None and "<" in t:
            for n, x in self.records.items():
                if n.split("<")[0] == t.split("<")[0] and self.norm_t(n) == self.norm_t(t):
                    return x
        return r

    def norm_t(self, t):
        return t.replace("libnurbs::Vec4", "Eigen::Matrix<double, 4, 1>").replace("libnurbs::Vec3", "Eigen::Matrix<double, 3, 1>")

    def uninit(self, t, name="value"):
        """Default-initialised object of type t."""
        t = clean(t)
        sh = self.shape_t(t)
        k = sh[0]
        if k in ("int", "real"):
            return unk("uninit:" + name, k)
        if k == "bool":
            return unkb("uninit:" + name)
        if k == "vec":
            return vec([unk("uninit:" + name) for _ in range(sh[1] * sh[2])], sh[1], sh[2])
        if k == "arr":
            if t.startswith("std::array<"):
                return mk(AFill, (const(int(targs(t)[1])),), self.uninit(targs(t)[0], name), sh[1])
            dims = (ZERO,) * sh[2]
            return mk(AFill, dims, self.default_elem(sh[1]), sh[1])
        if k == "struct":
            return self.default_struct(t, False)
        if k == "str":
            return mk(Str, "lit", "")
        return mk(Unknown, "uninit", t, next(T._fresh))

    def default_elem(self, sh):
        """Value-initialised element of a given shape."""
        k = sh[0]
        if k in ("int", "real"): return ZERO
        if k == "bool": return FALSE
        if k == "vec": return vec([unk("uninit:element") for _ in range(sh[1] * sh[2])], sh[1], sh[2])
        if k == "arr": return mk(AFill, (ZERO,) * sh[2], self.default_elem(sh[1]), sh[1])
        if k == "struct": return self.default_struct(sh[1], True)
        if k == "str": return mk(Str, "lit", "")
        return unknown("element")

    def value_init(self, t):
        t = clean(t)
        sh = self.shape_t(t)
        if sh[0] == "opaque":
            return unknown("value-init " + t)
        return self.default_elem(sh)

    def default_struct(self, t, zero):
        r = self.rec(t)
        if r is None:
            sh = self.shape_t(t)
            if sh[0] == "struct":
                return mk(Struct, clean(t), tuple((n, self.default_elem(s)) for n, s in sh[2]))
            return unknown("struct " + t)
        st = State({}, Facts((), extra_axioms=self.extra), TRUE)
        fr = Frame(None)
        fs = []
        for f in r["fields"]:
            if f.get("init"):
                fs.append((f["name"], self.ev_init(f["init"], f["t"], st, fr)))
            else:
                fs.append((f["name"], self.value_init(f["t"]) if zero and self.shape_t(f["t"])[0] in ("int", "real", "bool") else self.uninit(f["t"], f["name"])))
        return mk(Struct, r["name"], tuple(fs))

    def ev_init(self, e, t, st, fr):
        if e["k"] == "initlist":
            return self.initlist(e, t, st, fr)
        return self.conv(self.ev(e, st, fr), t)

    def conv(self, v, t):
        sh = self.shape_t(t)
        if sh[0] == "bool":
            return self.tobool(v)
        if sh[0] in ("int", "real"):
            if isinstance(v, B):
                return self.topoly(v)
        return v

    def initlist(self, e, t, st, fr):
        t = clean(t)
        sh = self.shape_t(t)
        args = e["args"]
        if sh[0] in ("int", "real", "bool"):
            if not args:
                return self.value_init(t)
            return self.conv(self.ev(args[0], st, fr), t)
        if sh[0] == "struct" and self.rec(t):
            r = self.rec(t)
            fs = []
            for i, f in enumerate(r["fields"]):
                if i < len(args):
                    fs.append((f["name"], self.ev_init(args[i], f["t"], st, fr)))
                elif f.get("init"):
                    fs.append((f["name"], self.ev_init(f["init"], f["t"], st, fr)))
                else:
                    fs.append((f["name"], self.value_init(f["t"])))
            return mk(Struct, r["name"], tuple(fs))
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            vals = [self.ev(a, st, fr) for a in args]
            n = int(m.group(2))
            while len(vals) < n:
                vals.append(self.value_init(m.group(1)))
            return mk(AList, tuple(vals), self.shape_t(m.group(1)))
        if sh[0] == "arr" and t.startswith("std::array<") and args and args[0]["k"] == "initlist":
            vals = [self.ev(a, st, fr) for a in args[0]["args"]]
            n = int(targs(t)[1])
            while len(vals) < n:
                vals.append(self.value_init(targs(t)[0]))
            return mk(AList, tuple(vals), sh[1])
        if len(args) == 1:
            return self.ev(args[0], st, fr)
        return unknown("initlist " + t)

    # -- expressions ----------------------------------------------------------------------------------------
    def ev(self, e, st, fr):
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp("budget")
        k = e["k"]
        if "cv" in e and k not in ("call",) and not (k == "ref" and e.get("dk") == "global" and False):
            return self.cv(e)
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expression " + k)
            return unknown("expression " + k)
        return m(e, st, fr)

    def cv(self, e):
        c = e["cvk"]
        if c == "b":
            return mkbool(e["cv"])
        if c == "i":
            return const(int(e["cv"]))
        s = e["cv"]
        if "nan" in s or "inf" in s:
            return app(s.strip("-").lower(), ()) if not s.startswith("-") else neg(app(s.strip("-").lower(), ()))
        return const(Fraction(float.fromhex(s)))

    def e_int(self, e, st, fr): return const(int(e["v"]))

    def e_float(self, e, st, fr):
        return const(Fraction(float(e["v"])))

    def e_bool(self, e, st, fr): return mkbool(e["v"])
    def e_str(self, e, st, fr): return mk(Str, "lit", e["v"])
    def e_null(self, e, st, fr): return unknown("nullptr")
    def e_this(self, e, st, fr): return fr.this if fr.this is not None else unknown("this")
    def e_zero(self, e, st, fr): return self.value_init(e["t"])
    def e_defarg(self, e, st, fr): return self.ev(e["a"], st, Frame(None))
    def e_sizeof(self, e, st, fr): return unk("sizeof", "int")
    def e_trait(self, e, st, fr): return unkb("trait")
    def e_new(self, e, st, fr): return unknown("new")
    def e_delete(self, e, st, fr):
        return unknown("delete")
    def e_stdinitlist(self, e, st, fr):
        a = e["a"]
        if a["k"] == "initlist":
            vs = tuple(self.ev(x, st, fr) for x in a["args"])
            t = clean(e["t"])
            sh = self.shape_t(targs(t)[0]) if t.startswith("std::initializer_list<") else shape_of(vs[0]) if vs else ("real",)
            return mk(AList, vs, sh)
        return self.ev(a, st, fr)

    def e_initlist(self, e, st, fr): return self.initlist(e, e["t"], st, fr)

    def e_ref(self, e, st, fr):
        dk = e["dk"]
        if dk == "enum":
            return const(int(e["v"]))
        if dk == "func":
            return mk(Opaque, "func", e["callee"].get("key") or e["callee"]["qual"])
        if dk == "binding" and e.get("id") not in fr.env and e.get("binding"):
            return self.ev(e["binding"], st, fr)
        if e.get("id") in fr.env:
            return self.load(st, fr.env[e["id"]])
        if dk == "global":
            return self.global_val(e, st, fr)
        return unknown("variable " + e["name"])

    def global_val(self, e, st, fr):
        g = self.prog["globals"].get(e.get("qual"))
        if g and g.get("const") and g.get("init"):
            return self.ev_init(g["init"], g["t"], st, Frame(None))
        if g and g.get("const") and "cv" in e:
            return self.cv(e)
        return unknown("global " + str(e.get("qual")))

    def e_member(self, e, st, fr):
        if e["dk"] == "field":
            b = e["base"]
            if e["arrow"] or self.is_lvalue(b):
                return self.load(st, self.lv(e, st, fr))
            v = self.ev(b, st, fr)
            return self.step(v, ("f", e["name"]), st)
        return unknown("member " + e["name"])

    def is_lvalue(self, e):
        k = e["k"]
        if k in ("ref", "index"): return True
        if k == "member": return e["arrow"] or self.is_lvalue(e["base"])
        if k == "un" and e["op"] in ("*", "++", "--") and not e.get("post"): return True
        if k == "assign": return True
        if k == "call":
            rt = e.get("callee", {}).get("rtype", "")
            return rt.endswith("&") or rt.startswith("Eigen::") and e["callee"]["name"] in VIEWS and "obj" in e and self.is_lvalue(e["obj"])
        if k == "cast" and e.get("ck") in ("NoOp", "LValueBitCast", "ConstCast"): return self.is_lvalue(e["a"])
        if k == "cond": return self.is_lvalue(e["a"]) and self.is_lvalue(e["b"])
        return False

    def lv(self, e, st, fr):
        """Reference denoted by an lvalue expression (temporaries are materialised)."""
        k = e["k"]
        if k == "ref":
            i = e.get("id")
            if i in fr.env:
                return fr.env[i]
            if e["dk"] == "binding" and e.get("binding"):
                return self.lv(e["binding"], st, fr)
            return self.new(st, "tmp", self.e_ref(e, st, fr))
        if k == "member" and e["dk"] == "field":
            if e["arrow"]:
                b = self.ev(e["base"], st, fr)
            else:
                b = self.lv(e["base"], st, fr)
            return self.refstep(b, ("f", e["name"]), st)
        if k == "un" and e["op"] == "*":
            p = self.ev(e["a"], st, fr)
            if isinstance(p, Iter):
                return self.deref(p, st, e)
            return p if isinstance(p, (Ref, RefIte)) else self.new(st, "tmp", unknown("deref"))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.ev(e, st, fr)
            return self.lv(e["a"], st, fr)
        if k == "assign":
            self.ev(e, st, fr)
            return self.lv(e["a"], st, fr)
        if k == "index":
            a = self.ev(e["a"], st, fr) if not self.is_lvalue(e["a"]) else None
            i = self.topoly(self.ev(e["b"], st, fr))
            if a is None:
                r = self.lv(e["a"], st, fr)
                v = self.load(st, r)
                if isinstance(v, Iter):
                    return self.deref(mk(Iter, v.args[0], add(v.args[1], i)), st, e)
                self.bound(st, e, v, (i,))
                return self.refstep(r, ("i", (i,)), st)
            if isinstance(a, Iter):
                return self.deref(mk(Iter, a.args[0], add(a.args[1], i)), st, e)
            return self.new(st, "tmp", unknown("index"))
        if k == "cast" and self.is_lvalue(e["a"]):
            return self.lv(e["a"], st, fr)
        if k == "cond" and self.is_lvalue(e):
            c = self.tobool(self.ev(e["c"], st, fr))
            d = st.facts.decide(c)
            if d is True: return self.lv(e["a"], st, fr)
            if d is False: return self.lv(e["b"], st, fr)
            return vite(c, self.lv(e["a"], st, fr), self.lv(e["b"], st, fr))
        if k == "call":
            kind, v = self.call(e, st, fr)
            if kind == "lv":
                return v
            return self.new(st, "tmp", v)
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"], st, fr)
            return self.lv(e["b"], st, fr)
        return self.new(st, "tmp", self.ev(e, st, fr))

    def refstep(self, r, s, st):
        if isinstance(r, Ref):
            return mk(Ref, r.root, r.path + (s,))
        if isinstance(r, RefIte):
            return mk(RefIte, r.args[0], self.refstep(r.args[1], s, st), self.refstep(r.args[2], s, st))
        return self.new(st, "tmp", unknown("step through " + type(r).__name__))

    def deref(self, it, st, e):
        v = self.load(st, it.args[0])
        self.bound(st, e, v, (it.args[1],))
        return self.refstep(it.args[0], ("i", (it.args[1],)), st)

    def bound(self, st, e, v, idx):
        """Records the obligation that idx lies within the array."""
        if self.discover or not isinstance(v, Arr):
            return
        dims = v.dims
        if len(dims) != len(idx):
            return
        self.obls.append(("bound", e.get("l"), tuple(idx), dims, st.facts, st.guard))

    def e_un(self, e, st, fr):
        op = e["op"]
        if op in ("++", "--"):
            r = self.lv(e["a"], st, fr)
            old = self.load(st, r)
            d = ONE if op == "++" else neg(ONE)
            if isinstance(old, Iter):
                nv = mk(Iter, old.args[0], add(old.args[1], d))
            elif isinstance(old, RIter):
                nv = mk(RIter, old.args[0], sub(old.args[1], d))
            else:
                nv = add(self.topoly(old), d)
            self.store_(st, r, nv)
            return old if e.get("post") else nv
        if op == "*":
            return self.load(st, self.lv(e, st, fr))
        if op == "&":
            return self.lv(e["a"], st, fr)
        v = self.ev(e["a"], st, fr)
        if op == "-":
            return emap(lambda x: neg(self.topoly(x)), v)
        if op == "+":
            return v
        if op == "!":
            return bnot(self.tobool(v))
        self.note("unary " + op)
        return unknown("unary " + op)

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.tobool(self.ev(e["a"], st, fr))
            d = st.facts.decide(a)
            if d is (op == "||"):
                return mkbool(d)
            if d is not None:
                return self.tobool(self.ev(e["b"], st, fr))
            c = a if op == "&&" else bnot(a)
            s2 = st.fork(c)
            nt = len(fr.throws)
            b = self.tobool(self.ev(e["b"], s2, fr))
            self.merge_into(st, c, s2, st.copy(), relguard=st.guard)
            return band(a, b) if op == "&&" else bor(a, b)
        if op == ",":
            self.ev(e["a"], st, fr)
            return self.ev(e["b"], st, fr)
        a = self.ev(e["a"], st, fr)
        b = self.ev(e["b"], st, fr)
        return self.binop(op, a, b, e["t"], st)

    def binop(self, op, a, b, t, st):
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iterop(op, a, b, st)
        if op in ("==", "!="):
            if isinstance(a, B) and isinstance(b, B):
                r = bor(band(a, b), band(bnot(a), bnot(b)))
                return r if op == "==" else bnot(r)
            if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
                r = eq(self.topoly(a), self.topoly(b))
                return r if op == "==" else bnot(r)
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a is b: return mkbool(op == "==")
            return unkb("comparison")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return unkb("comparison") if op in ("<", ">", "<=", ">=") else (unknown("operand") if self.shape_t(t)[0] == "opaque" else unk("operand"))
        if isinstance(a, (Vec, Arr)) or isinstance(b, (Vec, Arr)):
            return self.matop(op, a, b)
        a, b = self.topoly(a), self.topoly(b)
        if op == "<": return lt(a, b)
        if op == ">": return lt(b, a)
        if op == "<=": return le(a, b)
        if op == ">=": return le(b, a)
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        isi = clean(t) in INTS
        if op == "/":
            if isi:
                return st.facts.idiv(a, b)
            return div(a, b)
        if op == "%":
            return st.facts.imod(a, b)
        if op in ("<<", ">>") and cval(b) is not None:
            f = const(2 ** int(cval(b)))
            return mul(a, f) if op == "<<" else st.facts.idiv(a, f)
        if op == "&" and cval(b) == 1:
            return st.facts.imod(a, const(2))
        self.note("operator " + op)
        return unk("operator " + op, "int" if isi else "real")

    def iterop(self, op, a, b, st):
        if op in ("+", "-") and isinstance(a, Iter) and isinstance(b, (Poly, B)):
            b = self.topoly(b)
            return mk(Iter, a.args[0], add(a.args[1], b) if op == "+" else sub(a.args[1], b))
        if op == "+" and isinstance(b, Iter):
            return mk(Iter, b.args[0], add(b.args[1], self.topoly(a)))
        if isinstance(a, Iter) and isinstance(b, Iter) and a.args[0] is b.args[0]:
            x, y = a.args[1], b.args[1]
            if op == "-": return sub(x, y)
            return {"==": eq, "!=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}[op](x, y)
        return unkb("iterator comparison") if op not in ("+", "-") else unknown("iterator arithmetic")

    def matop(self, op, a, b):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return unknown("operand")
        f = self.topoly
        if op in ("+", "-"):
            return emap((lambda x, y: add(f(x), f(y))) if op == "+" else (lambda x, y: sub(f(x), f(y))), a, b)
        if op == "*":
            am, bm = isinstance(a, (Vec, Arr)), isinstance(b, (Vec, Arr))
            if am and bm:
                if isinstance(a, Vec) and isinstance(b, Vec):
                    if a.cols != b.rows:
                        if a.cols == 1 and a.rows == 1:
                            return emap(lambda y: mul(a.c[0], f(y)), b)
                        raise GiveUp("matrix product shapes")
                    out = []
                    for i in range(a.rows):
                        for j in range(b.cols):
                            s = ZERO
                            for k in range(a.cols):
                                s = add(s, mul(f(a.c[i * a.cols + k]), f(b.c[k * b.cols + j])))
                            out.append(s)
                    return vec(out, a.rows, b.cols)
                raise GiveUp("dynamic matrix product")
            return emap(lambda x, y: mul(f(x), f(y)), a, b)
        if op == "/":
            return emap(lambda x, y: div(f(x), f(y)), a, b)
        if op in ("<", "<=", ">", ">="):
            g = {"<": lt, "<=": le, ">": gt, ">=": ge}[op]
            return emap(lambda x, y: g(f(x), f(y)), a, b)
        if op in ("==", "!="):
            x = emap(lambda p, q: eq(f(p), f(q)), a, b)
            if isinstance(x, Vec):
                r = band(*x.c)
                return r if op == "==" else bnot(r)
        return unknown("matrix operator " + op)

    def e_rewritten(self, e, st, fr):
        a, b = self.ev(e["a"], st, fr), self.ev(e["b"], st, fr)
        return self.anyop(e["op"], a, b, e["t"], st)

    def anyop(self, op, a, b, t, st):
        if isinstance(a, Str) and isinstance(b, Str) and op in ("==", "!="):
            if a.args[0] == "lit" and b.args[0] == "lit":
                return mkbool((a.args[1] == b.args[1]) == (op == "=="))
            return unkb("string comparison")
        return self.binop(op, a, b, t, st)

    def e_assign(self, e, st, fr):
        op = e["op"]
        if op == "=":
            v = self.ev(e["b"], st, fr)
            r = self.lv(e["a"], st, fr)
            v = self.conv(v, e["a"]["t"])
        else:
            v = self.ev(e["b"], st, fr)
            r = self.lv(e["a"], st, fr)
            v = self.binop(op[:-1], self.load(st, r), v, e.get("ct") or e["t"], st)
            v = self.trunc(v, e.get("ct"), e["a"]["t"], st)
        self.store_(st, r, v)
        return v

    def trunc(self, v, frm, to, st):
        if frm and clean(frm) in REALS and clean(to) in INTS and isinstance(v, Poly):
            return v if isint(v) else app("trunc", (v,), "int")
        return v

    def e_cond(self, e, st, fr):
        c = self.tobool(self.ev(e["c"], st, fr))
        d = st.facts.decide(c)
        if d is True: return self.ev(e["a"], st, fr)
        if d is False: return self.ev(e["b"], st, fr)
        sa, sb = st.fork(c), st.fork(bnot(c))
        if self.thr(e["a"]):
            self.ev(e["a"], sa, fr)
            v = self.ev(e["b"], sb, fr)
            st.store, st.facts, st.guard = sb.store, sb.facts, sb.guard
            return v
        if self.thr(e["b"]):
            v = self.ev(e["a"], sa, fr)
            self.ev(e["b"], sb, fr)
            st.store, st.facts, st.guard = sa.store, sa.facts, sa.guard
            return v
        va, vb = self.ev(e["a"], sa, fr), self.ev(e["b"], sb, fr)
        self.merge_into(st, c, sa, sb, relguard=st.guard)
        if clean(e["t"]) in INTS | REALS:
            va, vb = self.topoly(va), self.topoly(vb)
        return vite(c, va, vb)

    def thr(self, e):
        return e["k"] == "throw"

    def e_assert(self, e, st, fr):
        try:
            nt, no = len(fr.throws), len(self.obls)
            s2 = st.copy()
            c = self.tobool(self.ev(e["a"], s2, fr))
            del self.obls[no:]
            if not c.taint:
                st.assume(c)
        except GiveUp:
            pass
        return unknown("void")

    def e_cast(self, e, st, fr):
        ck = e["ck"]
        if ck in ("NoOp", "LValueBitCast", "ConstCast", "Reinterpret", "CStylePtr", "BitCast", "ToVoid", "Dynamic"):
            if ck in ("Reinterpret", "CStylePtr"):
                v = self.ev(e["a"], st, fr)
                return v
            return self.ev(e["a"], st, fr)
        v = self.ev(e["a"], st, fr)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "ConstructorConversion", "UserDefinedConversion"):
            return self.topoly(v) if isinstance(v, B) else v
        if ck == "FloatingToIntegral":
            p = self.topoly(v)
            return p if isint(p) else app("trunc", (p,), "int")
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        return v

    def e_index(self, e, st, fr):
        return self.load(st, self.lv(e, st, fr))

    def e_throw(self, e, st, fr):
        fr.throws.append((st.guard, (e.get("l"), e.get("et")), st.facts))
        st.guard = FALSE
        st.facts = st.facts.extend([FALSE])
        return unknown("throw")

    def e_lambda(self, e, st, fr):
        caps, init = [], []
        for c in e["captures"]:
            if c["k"] in ("this",):
                caps.append(("this", fr.this))
            elif c["k"] == "starthis":
                caps.append(("this", self.new(st, "cap", self.load(st, fr.this))))
            elif c.get("init"):
                caps.append((c["id"], self.new(st, "cap", self.ev(c["init"], st, fr))))
            elif c["k"] == "ref":
                if c["id"] in fr.env:
                    caps.append((c["id"], fr.env[c["id"]]))
            elif c["k"] == "copy":
                if c["id"] in fr.env:
                    caps.append((c["id"], self.new(st, "cap", self.load(st, fr.env[c["id"]]))))
        return mk(Closure, e.get("key") or e["cls"], tuple(caps))

    def e_construct(self, e, st, fr):
        return self.construct(e, st, fr)

    def e_call(self, e, st, fr):
        kind, v = self.call(e, st, fr)
        if kind == "lv":
            return self.load(st, v)
        return v

    def e_unknown(self, e, st, fr):
        self.note("expression class " + str(e.get("cls")))
        return unknown("expression class")

    # -- construction ---------------------------------------------------------------------------------------
    def construct(self, e, st, fr):
        c = e["callee"]
        cls = clean(e["t"])
        args = e["args"]
        if c.get("copy") or c.get("move"):
            if not (c.get("repo") and c.get("key") in self.fns and not c.get("trivialish")):
                return self.ev(args[0], st, fr)
        if c.get("repo") and self.rec(cls):
            key = c.get("key")
            if key in self.fns and self.fns[key].get("ctor"):
                return self.run_ctor(self.fns[key], args, st, fr, cls)
            if c.get("defctor"):
                return self.default_struct(cls, bool(e.get("zeroinit")))
            return unknown("constructor " + str(key))
        return self.std_construct(e, cls, c, args, st, fr)

    def run_ctor(self, fn, argn, st, fr, cls):
        args = [self.bind_arg(p, a, st, fr) for p, a in zip(fn["params"], argn)]
        return self.run_ctor_r(fn, args, st, fr, cls)

    def run_ctor_v(self, fn, vals, st, fr, cls):
        return self.run_ctor_r(fn, [self.new(st, p["name"] or "arg", self.conv(v, p["t"])) for p, v in zip(fn["params"], vals)], st, fr, cls)

    def run_ctor_r(self, fn, args, st, fr, cls):
        r = self.rec(cls)
        obj = mk(Struct, r["name"], tuple((f["name"], self.uninit(f["t"], f["name"])) for f in r["fields"]))
        this = self.new(st, "obj", obj)
        self.vtypes[this.root] = r["name"]
        nf = Frame(fn, this)
        for p, a in zip(fn["params"], args):
            nf.env[p["id"]] = a
        inited = set()
        ftypes = {f["name"]: f for f in r["fields"]}
        deleg = False
        for i in fn.get("inits") or []:
            if i.get("field"):
                f = ftypes[i["field"]]
                v = self.ev_init(i["init"], f["t"], st, nf) if i.get("init") else self.uninit(f["t"], f["name"])
                self.store_(st, this.step("f", i["field"]), v)
                inited.add(i["field"])
            elif i.get("delegating"):
                self.store_(st, this, self.ev(i["init"], st, nf))
                deleg = True
        if not deleg:
            for f in r["fields"]:
                if f["name"] not in inited and f.get("init"):
                    self.store_(st, this.step("f", f["name"]), self.ev_init(f["init"], f["t"], st, nf))
        self.run_body(fn, nf, st, fr)
        return self.load(st, this)

    def bind_arg(self, p, a, st, fr):
        """Location bound to a parameter."""
        if p.get("ref") and self.is_lvalue(a):
            return self.lv(a, st, fr)
        r = self.new(st, p["name"] or "arg", self.conv(self.ev(a, st, fr), p["t"]))
        self.vtypes[r.root] = p["t"]
        return r

    def span_val(self, v, r, st):
        """Reference, start, length of something iterable."""
        if isinstance(v, Span):
            return v.args
        if isinstance(v, Arr) and len(v.dims) == 1:
            return r, ZERO, v.dims[0]
        return None

    def std_construct(self, e, cls, c, args, st, fr):
        pt = c.get("ptypes") or []
        m = mat_type(cls) if cls.startswith("Eigen::Matrix<") else None
        if m:
            real = [a for a in args if a["k"] != "defarg"]
            if not real:
                return self.uninit(cls, "Eigen")
            if e.get("stdinit") or any(a["k"] == "stdinitlist" for a in real):
                vals = self.ev(real[0], st, fr)
                if isinstance(vals, AList) and all(isinstance(x, Poly) for x in vals.args[0]):
                    return vec(vals.args[0], m[0], m[1])
                return unknown("matrix initializer list")
            vs = [self.ev(a, st, fr) for a in real]
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, (Vec, Arr, Unknown)):
                    return self.fit(v, m)
                if m[0] < 0 or m[1] < 0:
                    if m[0] < 0 and m[1] < 0: return unknown("MatX(n)")
                    return mk(AFill, (self.topoly(v),), unk("uninit:Eigen"), ("real",))
                return unknown("matrix from scalar")
            if m[0] < 0 and m[1] < 0 and len(vs) == 2:
                return mk(AFill, (self.topoly(vs[0]), self.topoly(vs[1])), unk("uninit:Eigen"), ("real",))
            if m[0] * m[1] == len(vs):
                return vec([self.topoly(v) for v in vs], m[0], m[1])
            return unknown("matrix constructor")
        if cls.startswith("std::vector<") or cls.startswith("std::deque<"):
            el = targs(cls)[0]
            real = [a for a in args if a["k"] != "defarg"]
            esh = self.shape_t(el)
            if not real:
                return mk(AFill, (ZERO,), self.default_elem(esh), esh)
            if e.get("stdinit") or real[0]["k"] == "stdinitlist":
                v = self.ev(real[0], st, fr)
                return v if isinstance(v, AList) else unknown("initializer list")
            vs = [self.ev(a, st, fr) for a in real]
            if len(vs) == 1:
                if isinstance(vs[0], (Poly, B)):
                    return mk(AFill, (self.topoly(vs[0]),), self.default_elem(esh), esh)
                return vs[0]
            if isinstance(vs[0], Iter) and isinstance(vs[1], Iter):
                a, b = vs[0], vs[1]
                if a.args[0] is b.args[0]:
                    base = self.load(st, a.args[0])
                    if isinstance(base, Arr):
                        self.obls_range(st, e, base, a.args[1], b.args[1])
                        return mk(ASlice, base, a.args[1], sub(b.args[1], a.args[1])) if not (a.args[1] is ZERO and b.args[1] is base.dims[0]) else base
                return unknown("iterator range")
            if isinstance(vs[0], Poly):
                return mk(AFill, (vs[0],), self.conv(vs[1], el), esh)
            return unknown("vector constructor")
        if cls.startswith("std::array<"):
            return self.uninit(cls)
        if cls.startswith("std::span<"):
            real = [a for a in args if a["k"] != "defarg"]
            if len(real) == 1:
                if self.is_lvalue(real[0]):
                    r = self.lv(real[0], st, fr)
                    v = self.load(st, r)
                else:
                    v = self.ev(real[0], st, fr)
                    r = self.new(st, "tmp", v)
                s = self.span_val(v, r, st)
                return mk(Span, *s) if s else unknown("span")
            vs = [self.ev(a, st, fr) for a in real]
            if len(vs) == 2 and isinstance(vs[0], Iter):
                n = sub(vs[1].args[1], vs[0].args[1]) if isinstance(vs[1], Iter) else self.topoly(vs[1])
                return mk(Span, vs[0].args[0], vs[0].args[1], n)
            if len(vs) == 2 and isinstance(vs[0], (Ref, RefIte)) and cval(self.topoly(vs[1])) == 1:
                arr = self.new(st, "one", mk(AList, (self.load(st, vs[0]),), shape_of(self.load(st, vs[0]))))
                return mk(Span, arr, ZERO, ONE)
            return unknown("span")
        if cls.startswith("std::mdspan<"):
            vs = [self.ev(a, st, fr) for a in args]
            if isinstance(vs[0], Iter):
                return mk(MdSpan, vs[0].args[0], vs[0].args[1], tuple(self.topoly(v) for v in vs[1:]))
            return unknown("mdspan")
        if cls.startswith("std::__wrap_iter<") or cls.startswith("std::initializer_list<") or cls.startswith("std::reverse_iterator<"):
            return self.ev(args[0], st, fr) if args else unknown("iterator")
        if cls.startswith("std::pair<") or cls.startswith("std::tuple<"):
            vs = [self.ev(a, st, fr) for a in args if a["k"] != "defarg"]
            names = ("first", "second") if cls.startswith("std::pair<") else tuple("get%d" % i for i in range(len(vs)))
            ts = targs(cls)
            if len(vs) == 1 and isinstance(vs[0], Struct):
                return mk(Struct, cls, tuple((n, v) for n, (_, v) in zip(names if len(names) == len(vs[0].args[1]) else tuple("get%d" % i for i in range(len(vs[0].args[1]))) if not cls.startswith("std::pair<") else ("first", "second"), vs[0].args[1])))
            if not vs:
                return mk(Struct, cls, tuple((n, self.value_init(t)) for n, t in zip(("first", "second") if cls.startswith("std::pair<") else tuple("get%d" % i for i in range(len(ts))), ts)))
            return mk(Struct, cls, tuple((n, self.conv(v, t)) for n, v, t in zip(names, vs, ts)))
        if cls.startswith("std::stack<") or cls.startswith("std::queue<"):
            return mk(AFill, (ZERO,), self.default_elem(self.shape_t(targs(cls)[0])), self.shape_t(targs(cls)[0]))
        if cls.startswith("std::basic_string<") or "string" in cls.split("<")[0] and not "stream" in cls:
            vs = [self.ev(a, st, fr) for a in args if a["k"] != "defarg"]
            if len(vs) == 1 and isinstance(vs[0], Str):
                return vs[0]
            if not vs:
                return mk(Str, "lit", "")
            return mk(Str, "unk", next(T._fresh))
        if cls.startswith("std::optional<"):
            vs = [self.ev(a, st, fr) for a in args if a["k"] != "defarg"]
            return unknown("optional")
        for a in args:
            if a["k"] != "defarg":
                self.ev(a, st, fr)
        return mk(Opaque, cls, next(T._fresh))

    def obls_range(self, st, e, base, lo, hi):
        if not self.discover:
            self.obls.append(("range", e.get("l"), (lo, hi), base.dims, st.facts, st.guard))

    def fit(self, v, m):
        """Assignment between Eigen shapes (row expression to column vector and the like)."""
        if isinstance(v, Vec) and m[0] > 0 and m[1] > 0 and (v.rows, v.cols) != m and v.rows * v.cols == m[0] * m[1]:
            return vec(v.c, m[0], m[1])
        if isinstance(v, Vec) and (m[0] < 0 or m[1] < 0):
            if m[0] < 0 and m[1] < 0:
                return unknown("fixed to dynamic matrix")
            return mk(AList, v.c, ("real",))
        return v

    # -- calls ----------------------------------------------------------------------------------------------
    def call(self, e, st, fr):
        c = e.get("callee")
        if c is None:
            f = self.ev(e["fn"], st, fr) if e.get("fn") else None
            if isinstance(f, Opaque) and f.args[0] == "func" and f.args[1] in self.fns:
                return self.invoke(self.fns[f.args[1]], None, e["args"], st, fr)
            if isinstance(f, Closure):
                return self.call_closure(f, e["args"], st, fr)
            for a in e["args"]:
                self.ev(a, st, fr)
            return "rv", unknown("indirect call")
        for nm in (c.get("key"), c.get("qual")):
            if nm in self.opaque:
                r = self.opaque[nm](self, e, st, fr)
                if r is not None:
                    return r
        if c.get("lambda"):
            f = self.ev(e["obj"], st, fr)
            if isinstance(f, Closure):
                return self.call_closure(f, e["args"], st, fr, c.get("key"))
            for a in e["args"]:
                self.ev(a, st, fr)
            return "rv", unknown("lambda")
        if c.get("repo"):
            key = c.get("key")
            fn = self.fns.get(key)
            if c.get("copyassign") or c.get("moveassign"):
                if fn is None or c.get("implicit"):
                    v = self.ev(e["args"][0], st, fr)
                    r = self.lv(e["obj"], st, fr)
                    self.store_(st, r, v)
                    return "lv", r
            if fn is not None:
                this = None
                if "obj" in e and not c.get("static"):
                    if e.get("arrow"):
                        this = self.ev(e["obj"], st, fr)
                    else:
                        this = self.lv(e["obj"], st, fr)
                return self.invoke(fn, this, e["args"], st, fr)
            self.note("no body for " + str(key))
            return self.clobber(e, st, fr, "call of " + str(key))
        return self.std_call(e, c, st, fr)

    def clobber(self, e, st, fr, why):
        """Unknown effect: every lvalue argument passed to a non-const reference becomes unknown."""
        c = e.get("callee") or {}
        pts = c.get("ptypes") or []
        for i, a in enumerate(e["args"]):
            t = pts[i] if i < len(pts) else ""
            if t.endswith("&") and not t.startswith("const ") and self.is_lvalue(a):
                self.store_(st, self.lv(a, st, fr), unknown(why))
            else:
                v = self.ev(a, st, fr)
                if isinstance(v, (Ref,)) and not t.startswith("const "):
                    self.store_(st, v, unknown(why))
                elif isinstance(v, Iter):
                    self.store_(st, v.args[0], unknown(why))
                elif isinstance(v, Closure):
                    for _, r in v.args[1]:
                        if isinstance(r, Ref):
                            self.store_(st, r, unknown(why))
        if "obj" in e and not c.get("const") and self.is_lvalue(e["obj"]) and not c.get("static"):
            self.store_(st, self.lv(e["obj"], st, fr), unknown(why))
        sh = self.shape_t(c.get("rtype", "void")) if c else ("opaque",)
        if sh[0] in ("int", "real"): return "rv", unk(why, sh[0])
        if sh[0] == "bool": return "rv", unkb(why)
        if sh[0] == "vec": return "rv", vec([unk(why) for _ in range(sh[1] * sh[2])], sh[1], sh[2])
        return "rv", unknown(why)

    def call_closure(self, f, argn, st, fr, key=None):
        fn = self.fns.get(f.args[0]) or self.fns.get(key)
        if fn is None:
            for k, x in self.fns.items():
                if k.startswith(str(f.args[0]) + "("):
                    fn = x
                    break
        if fn is None:
            self.note("no body for lambda " + str(f.args[0]))
            for a in argn:
                self.ev(a, st, fr)
            for _, r in f.args[1]:
                if isinstance(r, Ref):
                    self.store_(st, r, unknown("lambda"))
            return "rv", unknown("lambda")
        caps = dict(f.args[1])
        return self.invoke(fn, caps.pop("this", None), argn, st, fr, caps)

    def invoke(self, fn, this, argn, st, fr, caps=None):
        args = [self.bind_arg(p, a, st, fr) for p, a in zip(fn["params"], argn)]
        h = self.hooks.get(fn["qual"])
        if h:
            h(self, fn, this, args, st, fr)
        return self.invoke_v(fn, this, args, st, fr, caps)

    def invoke_v(self, fn, this, args, st, fr, caps=None):
        self.depth += 1
        try:
            if self.depth > self.maxdepth or sum(1 for f in self.frames if f is fn) > 2:
                raise GiveUp("recursion in " + fn["qual"])
            nf = Frame(fn, this)
            if caps:
                nf.env.update(caps)
            for p, a in zip(fn["params"], args):
                nf.env[p["id"]] = a
            self.frames.append(fn)
            try:
                return self.run_body(fn, nf, st, fr)
            finally:
                self.frames.pop()
        finally:
            self.depth -= 1

    def run_body(self, fn, nf, st, fr):
        """Executes a body; st becomes the merged state after it."""
        g0 = st.guard
        s = State(st.store, st.facts, TRUE)
        out = self.ex(fn["body"], s, nf)
        isref = fn["rtype"].endswith("&")
        if out is not None:
            nf.returns.append((out.guard, out, unknown("void") if clean(fn["rtype"]) == "void" or fn.get("ctor") else unknown("missing return")))
        rets = nf.returns
        for g, info, f in nf.throws:
            fr.throws.append((band(g0, g), info, f))
        if not rets:
            st.guard = FALSE
            st.facts = st.facts.extend([FALSE])
            return "rv", unknown("no return")
        g, s, v = rets[-1]
        store = s.store
        facts = set(s.facts.facts)
        for g1, s1, v1 in reversed(rets[:-1]):
            store = self.merge_store(g1, s1.store, store)
            v = self.merge_val(g1, v1, v)
            facts &= set(s1.facts.facts)
        thrown = bor(*[x for x, _, _ in nf.throws]) if nf.throws else FALSE
        st.store = store
        keep = [f for f in rets[-1][1].facts.facts if f in facts]
        nfacts = st.facts.extend(keep)
        if thrown is not FALSE:
            nfacts = nfacts.extend([bnot(thrown)])
            st.guard = band(g0, bnot(thrown))
        else:
            st.guard = g0
        st.facts = nfacts
        rsh = clean(fn["rtype"])
        if not isref and rsh in (INTS | REALS) and isinstance(v, B):
            v = self.topoly(v)
        return ("lv" if isref and isinstance(v, (Ref, RefIte)) else "rv"), v

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Unknown) and a.args[0] == "missing return":
            return b
        if isinstance(b, Unknown) and b.args[0] == "missing return":
            return a
        return vite(c, a, b)

    def merge_store(self, c, a, b):
        out = {}
        for k, v in b.items():
            if k in a:
                w = a[k]
                out[k] = v if w is v else vite(c, w, v)
            else:
                out[k] = v
        for k, v in a.items():
            if k not in b:
                out[k] = v
        return out

    def merge_into(self, st, c, sa, sb, relguard=None):
        st.store = {}
        for k, v in sb.store.items():
            w = sa.store.get(k, v)
            st.store[k] = v if w is v else merge_under(c, w, v, sa.facts, sb.facts)
        for k, v in sa.store.items():
            st.store.setdefault(k, v)
        fb = set(sb.facts.facts)
        keep = [f for f in sa.facts.facts if f in fb]
        if len(keep) != len(st.facts.facts) or any(x is not y for x, y in zip(keep, st.facts.facts)):
            st.facts = Facts((), extra_axioms=self.extra).extend(keep)
        st.guard = bor(sa.guard, sb.guard)

    # -- statements -----------------------------------------------------------------------------------------
    def ex(self, s, st, fr):
        """Returns the state after s, or None when control does not continue."""
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp("budget")
        if s is None:
            return st
        if st.guard is FALSE:
            return None
        k = s["k"]
        if k == "block":
            for x in s["body"]:
                st = self.ex(x, st, fr)
                if st is None or st.guard is FALSE:
                    return None
            return st
        if k == "expr":
            self.ev(s["a"], st, fr) if s["a"]["k"] != "call" else self.call(s["a"], st, fr)
            return None if st.guard is FALSE else st
        if k == "decl":
            for v in s["vars"]:
                self.decl(v, st, fr)
            return None if st.guard is FALSE else st
        if k == "if":
            return self.ex_if(s, st, fr)
        if k == "return":
            v = unknown("void")
            if s.get("a"):
                if fr.fn and fr.fn["rtype"].endswith("&") and self.is_lvalue(s["a"]):
                    v = self.lv(s["a"], st, fr)
                else:
                    v = self.ev(s["a"], st, fr)
                    if fr.fn:
                        v = self.conv(v, fr.fn["rtype"])
                        m = mat_type(fr.fn["rtype"]) if clean(fr.fn["rtype"]).startswith("Eigen::Matrix<") else None
                        if m: v = self.fit(v, m)
            if st.guard is not FALSE:
                fr.returns.append((st.guard, st, v))
            return None
        if k == "for":
            if s.get("init"):
                st = self.ex(s["init"], st, fr)
                if st is None: return None
            return self.loop(s, st, fr)
        if k == "while":
            return self.loop(s, st, fr)
        if k == "do":
            return self.ex_do(s, st, fr)
        if k == "rangefor":
            return self.ex_range(s, st, fr)
        if k == "break":
            fr.loops[-1]["breaks"].append(st)
            return None
        if k == "continue":
            for l in reversed(fr.loops):
                if not l.get("switch"):
                    l["continues"].append(st)
                    break
            return None
        if k in ("null", "label"):
            return st if k == "null" else self.ex(s["body"], st, fr)
        if k == "switch":
            return self.ex_switch(s, st, fr)
        if k in ("case", "default"):
            return self.ex(s["body"], st, fr)
        if k == "try":
            return self.ex_try(s, st, fr)
        raise GiveUp("statement " + k)

    def ex_try(self, s, st, fr):
        n = len(fr.throws)
        g = st.guard
        out = self.ex(s["body"], st.copy(), fr)
        caught = fr.throws[n:]
        if caught:
            raise GiveUp("try block that catches")
        return out

    def decl(self, v, st, fr):
        if v.get("bindings"):
            val = None
            if v.get("ref") and v.get("init") and self.is_lvalue(v["init"]):
                r = self.lv(v["init"], st, fr)
            else:
                r = self.new(st, "bind", self.ev(v["init"], st, fr))
            fr.env[v["id"]] = r
            self.bind_names(v, r, st, fr)
            return
        if v.get("ref"):
            if v.get("init") is not None:
                fr.env[v["id"]] = self.lv(v["init"], st, fr)
            return
        if v.get("static") and not v.get("const"):
            fr.env[v["id"]] = self.new(st, v["name"], unknown("static " + v["name"]))
            return
        if v.get("init") is None:
            val = self.uninit(v["t"], v["name"])
        else:
            val = self.ev_init(v["init"], v["t"], st, fr)
            t = clean(v["t"])
            m = mat_type(t) if t.startswith("Eigen::Matrix<") else None
            if m:
                val = self.fit(val, m)
        fr.env[v["id"]] = self.new(st, v["name"], val)
        self.vtypes[fr.env[v["id"]].root] = v["t"]

    def bind_names(self, v, r, st, fr):
        val = self.load(st, r)
        if isinstance(val, Struct):
            for b, (n, _) in zip(v["bindings"], val.args[1]):
                fr.env[b["id"]] = self.refstep(r, ("f", n), st)
        else:
            for b in v["bindings"]:
                fr.env[b["id"]] = self.new(st, b["name"], unknown("binding"))

    script = None           # decisions of one path

    def decision(self, c, st):
        k = len(self.taken)
        if k >= len(self.script):
            raise GiveUp("decision %d is open" % k)
        self.taken.append(c if self.script[k] else bnot(c))
        st.assume(self.taken[-1])
        return self.script[k]

    def ex_if(self, s, st, fr):
        if s.get("init"):
            st = self.ex(s["init"], st, fr)
        if s.get("consteval"):
            return self.ex(s.get("b"), st, fr) if s.get("b") else st
        if s.get("var"):
            self.decl(s["var"], st, fr)
        c = self.tobool(self.ev(s["c"], st, fr))
        if st.guard is FALSE:
            return None
        d = st.facts.decide(c)
        if d is True:
            return self.ex(s["a"], st, fr)
        if d is False:
            return self.ex(s["b"], st, fr) if s.get("b") else st
        if not any(str(getattr(a, "args", ("",))[0]).startswith(("phi_", "t#")) for a in c.fv):
            c = decision(c)
            d = st.facts.decide(c)
            if d is not None:
                return self.ex(s["a"], st, fr) if d else self.ex(s["b"], st, fr) if s.get("b") else st
        if self.script is not None:
            # one path: the decision is given
            return self.ex(s["a"], st, fr) if self.decision(c, st) else self.ex(s["b"], st, fr) if s.get("b") else st
        sa = self.ex(s["a"], st.fork(c), fr)
        sb = st.fork(bnot(c))
        if s.get("b"):
            sb = self.ex(s["b"], sb, fr)
        if sa is None:
            return sb
        if sb is None:
            return sa
        self.merge_into(st, c, sa, sb)
        return st

    def ex_switch(self, s, st, fr):
        if s.get("init"):
            st = self.ex(s["init"], st, fr)
        v = self.topoly(self.ev(s["c"], st, fr))
        body = s["body"]["body"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten nested case labels
        items = []
        def push(x):
            if x["k"] in ("case", "default"):
                items.append(("label", x))
                push(x["body"])
            else:
                items.append(("stmt", x))
        for x in body:
            if x is not None:
                push(x)
        labels = [(i, x) for i, (k, x) in enumerate(items) if k == "label"]
        conds, seen = [], []
        for i, x in labels:
            if x["k"] == "case":
                conds.append((i, eq(v, self.topoly(self.ev(x["v"], st, fr)))))
        deflt = next((i for i, x in labels if x["k"] == "default"), None)
        anyc = bor(*[c for _, c in conds])
        entries = list(conds)
        rest = bnot(anyc)
        if s.get("allenum") and deflt is None:
            rest = FALSE
            # enumerators are exhaustive: the last case is the complement of the others
            st.assume(anyc)
        entries.append((deflt, rest))
        fr.loops.append({"breaks": [], "continues": [], "switch": True})
        outs = []
        try:
            for pos, c in entries:
                if c is FALSE or st.facts.decide(c) is False:
                    continue
                cur = st.fork(c)
                if pos is None:
                    outs.append(cur)
                    continue
                i = pos
                while i < len(items) and cur is not None:
                    if items[i][0] == "stmt":
                        cur = self.ex(items[i][1], cur, fr)
                    i += 1
                if cur is not None:
                    outs.append(cur)
        finally:
            l = fr.loops.pop()
        outs += l["breaks"]
        for x in l["continues"]:
            for o in reversed(fr.loops):
                if not o.get("switch"):
                    o["continues"].append(x)
                    break
        if not outs:
            return None
        return self.merge_many(st, outs)

    def merge_many(self, st, outs):
        """Joins states with mutually exclusive guards."""
        base = outs[-1]
        store = base.store
        facts = set(base.facts.facts)
        for s in reversed(outs[:-1]):
            store = self.merge_store(self.relguard(s, st), s.store, store)
            facts &= set(s.facts.facts)
        keep = [f for f in base.facts.facts if f in facts]
        return State(store, Facts((), extra_axioms=self.extra).extend(keep), bor(*[s.guard for s in outs]))

    def relguard(self, s, st):
        """Condition (relative to st) under which s was reached."""
        if st.guard is TRUE:
            return s.guard
        if s.guard.kind == "and" and st.guard.kind == "and":
            rest = [x for x in s.guard.args if x not in st.guard.args]
            return band(*rest)
        if s.guard.kind == "and" and st.guard in s.guard.args:
            return band(*[x for x in s.guard.args if x is not st.guard])
        return s.guard

    def find_method(self, cls, name):
        for k, f in self.fns.items():
            if f["name"] == name and f.get("cls") and self.norm_t(f["cls"]) == self.norm_t(cls) and not f["params"]:
                return f
        return None

    from .loops import loop, ex_do, ex_range, one_iter, try_unroll, leaves_of, leaf_type, solve_leaf, solve_scalar, solve_bool, solve_array, old_reads, \
        trip, run_loop, map_reads, find_invariants, writes_of, elem_solve, push_solve

    from .models import std_call, iter_member, vec_member, emplace_val, eigen_member, str_member, obl_idx, minmax_facts, closure_fn, \
        invoke_refs, synth_loop


def merge_under(c, a, b, fa, fb):
    """The gated join, numbers first simplified under the facts of their own branch."""
    if a is b:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        if gated(a) or gated(b):
            x, y = tidy(a, fa), tidy(b, fb)
            return x if x is y else y if same_at(c, x, y) else ite(c, x, y)
        return vite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and set(a.fields) == set(b.fields):
        ga, gb = a.fields, b.fields
        return mk(Struct, a.cls, tuple((n, merge_under(c, ga[n], gb[n], fa, fb)) for n, _ in a.args[1]))
    return vite(c, a, b)


def gated(p):
    return any(a.kind == "ite" and a.args[0].kind in ("le", "lt", "eq", "not") for m, _ in p.terms for a, _e in m)


from .models import VIEWS  # noqa: E402
