"""Effects: which objects a function may write (interprocedural, alias based), hidden state, ambient inputs."""
import re

ACCESSORS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "operator[]", "operator()", "at", "front", "back", "top", "head", "tail", "segment",
             "x", "y", "z", "w", "row", "col", "block", "noalias", "array", "matrix", "transpose", "base", "operator*", "operator->", "operator+", "operator-",
             "size", "topRows", "bottomRows", "leftCols", "rightCols", "diagonal", "subspan", "first", "last", "coeffRef", "rowwise", "colwise", "reshaped",
             "operator bool", "eval", "value", "get", "str", "middleRows", "middleCols", "topLeftCorner", "rdbuf", "subspan", "derived"}
MUTALG = {"sort", "stable_sort", "reverse", "rotate", "fill", "fill_n", "iota", "iter_swap", "unique", "remove", "remove_if", "replace", "replace_if", "shuffle",
          "generate", "generate_n", "nth_element", "inplace_merge", "partial_sort", "random_shuffle", "swap_ranges", "partition", "stable_partition", "make_heap",
          "push_heap", "pop_heap", "sort_heap", "next_permutation", "prev_permutation", "swap", "exchange"}
OUTALG = {"copy": 2, "copy_n": 2, "copy_if": 2, "move": 2, "transform": -2, "partial_sum": 2, "adjacent_difference": 2, "exclusive_scan": 2, "inclusive_scan": 2,
          "reverse_copy": 2, "copy_backward": 2, "move_backward": 2, "unique_copy": 2, "remove_copy": 2, "merge": 4, "rotate_copy": 3}
AMBIENT = {"rand", "random", "drand48", "time", "clock", "getenv", "srand", "strtok", "localtime", "gmtime", "tmpnam", "gettimeofday", "clock_gettime"}
AMBIENT_TYPES = ("std::random_device", "std::chrono::system_clock", "std::chrono::steady_clock", "std::chrono::high_resolution_clock", "std::this_thread")
PTRLIKE = re.compile(r"\*\s*(const)?$|__wrap_iter<|reverse_iterator<|std::span<|mdspan<|Eigen::Block<|Eigen::Map<|Eigen::Ref<|ArrayWrapper<|NoAlias<|Eigen::Transpose<|"
                     r"reference_wrapper<|VectorBlock<|std::tuple<.*&|std::pair<.*&|MatrixWrapper<|Reshaped<|bounded_iter<|ranges::|initializer_list<")
STREAM = re.compile(r"std::(basic_)?(i|o|io|if|of|f|istring|ostring|string)?stream\b|std::(basic_)?(istream|ostream|iostream|ios|ifstream|ofstream|fstream|stringstream)")


def ptrlike(t):
    t = t.strip()
    return bool(PTRLIKE.search(t)) and not t.startswith("std::vector") and not t.startswith("std::string")


def ismutref(pt):
    pt = pt.strip()
    return pt.endswith("&") and not pt.endswith("&&") and not pt.startswith("const ") and " const &" not in pt


def isrref(pt):
    return pt.strip().endswith("&&") and not pt.strip().startswith("const ")


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for k, v in x.items():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


class Summary:
    def __init__(self):
        self.writes = {}      # root -> line
        self.rets = set()     # roots a returned reference may denote
        self.unknown = []     # (line, callee)

    def snap(self):
        return (frozenset(self.writes), frozenset(self.rets), len(self.unknown))


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.F = prog["functions"]
        self.sum = {k: Summary() for k in self.F}
        for _ in range(12):
            before = {k: s.snap() for k, s in self.sum.items()}
            for k, f in self.F.items():
                if not f.get("lambda"):
                    self.analyse(k, f)
            if all(before[k] == s.snap() for k, s in self.sum.items()):
                break

    def analyse(self, key, f):
        S = self.sum[key]
        A = Fn(self, f, S)
        for _ in range(4):
            n = (S.snap(), {k: len(v) for k, v in A.alias.items()})
            S.unknown = []
            A.scan(f.get("body"))
            for i in f.get("inits") or []:
                A.scan(i)
            if (S.snap(), {k: len(v) for k, v in A.alias.items()}) == n:
                break


class Fn:
    def __init__(self, E, f, S):
        self.E, self.f, self.S = E, f, S
        self.alias = {}
        self.vars = {}
        self.lam = {}
        self.param = {}
        for i, p in enumerate(f["params"]):
            self.param[p["id"]] = i
            if p.get("ref") or ptrlike(p["t"]):
                self.alias[p["id"]] = {("parm", i)}
            self.vars[p["id"]] = p
        self.bodies = set()

    # ---- locations
    def loc(self, e):
        """Roots the lvalue (or pointer-like value) e may denote."""
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        if k in ("ref", "copy"):
            i = e.get("id")
            if e.get("staticlocal"):
                return {("static", e.get("name"))}
            if e.get("dk") in ("fn", "function", "enumerator", "enumconst"):
                return set()
            v = self.vars.get(i)
            if v is not None and (v.get("ref") or ptrlike(v["t"])):
                return set(self.alias.get(i, ()))
            if v is None and i in self.alias:
                return set(self.alias[i])
            if v is None and e.get("qual") and e.get("repo"):
                return {("global", e["qual"])}
            return {("local", i)}
        if k == "this":
            return {("this",)}
        if k == "member":
            if e.get("dk") == "field":
                return self.loc(e["base"])
            if e.get("dk") in ("staticfield", "var", "staticvar"):
                return {("global", "%s::%s" % (e.get("cls"), e["name"]))}
            return self.loc(e.get("base"))
        if k == "index":
            return self.loc(e["a"])
        if k == "un":
            return self.loc(e["a"])
        if k in ("cast", "paren", "defarg", "stdinitlist", "rewritten", "materialize"):
            return self.loc(e.get("a"))
        if k == "cond":
            return self.loc(e["a"]) | self.loc(e["b"])
        if k == "assign":
            return self.loc(e["a"])
        if k == "bin":
            if e.get("op") == ",":
                return self.loc(e["b"])
            return self.loc(e["a"]) | self.loc(e["b"]) if ptrlike(e.get("t", "")) else set()
        if k == "initlist":
            return set().union(*[self.loc(a) for a in e["args"]]) if ptrlike(e.get("t", "")) else set()
        if k == "construct":
            if ptrlike(e.get("t", "")):
                return set().union(set(), *[self.loc(a) for a in e["args"]])
            return set()
        if k == "call":
            return self.callret(e)
        return set()

    def callret(self, e):
        c = e["callee"]
        rt = c.get("rtype", "")
        g = self.E.F.get(c.get("key"))
        obj = e.get("obj")
        if g is not None and not g.get("lambda"):
            if "&" not in rt and "*" not in rt and not ptrlike(rt):
                return set()
            out = set()
            for r in self.E.sum[c["key"]].rets:
                out |= self.map(r, e)
            return out
        if c.get("name") in ("move", "forward", "as_const", "ref") and len(e["args"]) == 1:
            return self.loc(e["args"][0])
        if "&" in rt or "*" in rt or ptrlike(rt) or ptrlike(e.get("t", "")):
            out = self.loc(obj) if obj is not None else set()
            for a in e["args"]:
                if obj is None or ptrlike(a.get("t", "")):
                    out |= self.loc(a)
            return out
        return set()

    def map(self, r, e):
        """Root of the callee in terms of the caller."""
        if r[0] == "this":
            return self.loc(e["obj"]) if e.get("obj") is not None else set()
        if r[0] == "parm":
            return self.loc(e["args"][r[1]]) if r[1] < len(e["args"]) else set()
        if r[0] in ("static", "global"):
            return {r}
        return set()

    # ---- effects
    def write(self, roots, l):
        for r in roots:
            if r[0] != "local":
                self.S.writes.setdefault(r, l)

    def plain_ptr_var(self, e):
        return isinstance(e, dict) and e.get("k") == "ref" and ((self.vars.get(e.get("id")) or {}).get("t") is not None) and \
            not self.vars[e["id"]].get("ref") and ptrlike(self.vars[e["id"]]["t"]) and not re.search("Eigen::", self.vars[e["id"]]["t"])

    def bind(self, v, roots):
        self.alias.setdefault(v["id"], set()).update(roots)

    def scan(self, x):
        walk(x, self.visit)

    def visit(self, x):
        k = x.get("k")
        l = x.get("l")
        if k == "decl":
            for v in x["vars"]:
                self.vars[v["id"]] = v
                init = v.get("init")
                if v.get("static"):
                    continue
                if init is not None and (v.get("ref") or ptrlike(v["t"])):
                    self.bind(v, self.loc(init))
                for b in v.get("bindings") or []:
                    if isinstance(b, dict) and "id" in b:
                        bv = {"id": b["id"], "t": b.get("t", ""), "ref": v.get("ref")}
                        self.vars[b["id"]] = bv
                        if v.get("ref") and init is not None:
                            self.bind(bv, self.loc(init))
        elif k == "rangefor":
            v = x["var"]
            self.vars[v["id"]] = v
            if v.get("ref") or ptrlike(v["t"]):
                self.bind(v, self.loc(x["range"]))
            for b in v.get("bindings") or []:
                if isinstance(b, dict) and "id" in b:
                    bv = {"id": b["id"], "t": b.get("t", ""), "ref": v.get("ref")}
                    self.vars[b["id"]] = bv
                    if v.get("ref"):
                        self.bind(bv, self.loc(x["range"]))
        elif k == "assign":
            if self.plain_ptr_var(x["a"]):
                self.bind(self.vars[x["a"]["id"]], self.loc(x["b"]))
            else:
                self.write(self.loc(x["a"]), l)
        elif k == "un" and x.get("op") in ("++", "--"):
            if not self.plain_ptr_var(x["a"]):
                self.write(self.loc(x["a"]), l)
        elif k == "lambda":
            g = self.E.F.get(x.get("key"))
            if g is not None and g["key"] not in self.bodies:
                self.bodies.add(g["key"])
                for p in g["params"]:
                    self.vars[p["id"]] = p
                self.scan(g.get("body"))
                self.bodies.discard(g["key"])
        elif k == "return":
            a = x.get("a")
            if a is not None:
                rt = self.f.get("rtype", "")
                if "&" in rt or "*" in rt or ptrlike(rt):
                    self.S.rets |= {r for r in self.loc(a) if r[0] != "local"}
        elif k == "call":
            self.call(x)
        elif k == "construct":
            c = x.get("callee") or {}
            self.args(c.get("ptypes") or [], x["args"], l, c, True, x)
        elif k == "delete":
            self.write(self.loc(x.get("a")), l)

    def args(self, pts, args, l, c, isctor=False, x=None):
        view = isctor and x is not None and ptrlike(x.get("t", ""))
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ""
            if view:
                continue
            if isrref(pt) and a.get("k") not in ("construct", "initlist") and not self.fresh(a):
                self.write(self.loc(a), l)
            elif ismutref(pt) and not STREAM.search(pt) and c.get("name") not in ("begin", "end", "get", "data", "size", "tie", "ref", "forward_as_tuple", "make_pair", "make_tuple"):
                if not (isctor and ("span<" in (c.get("cls") or "") or "mdspan<" in (c.get("cls") or ""))):
                    self.write(self.loc(a), l)

    def fresh(self, a):
        """An unnamed temporary: only std::move / casts to && of named things matter."""
        while isinstance(a, dict) and a.get("k") in ("cast", "materialize", "paren"):
            a = a.get("a")
        if a.get("k") == "call" and a["callee"].get("name") in ("move", "forward") and len(a["args"]) == 1:
            return False
        if a.get("k") in ("ref", "member", "index", "this") or (a.get("k") == "un" and a.get("op") == "*"):
            return False
        if a.get("k") == "call" and "&&" in a["callee"].get("rtype", ""):
            return False
        return True

    def call(self, x):
        c, l = x["callee"], x.get("l")
        g = self.E.F.get(c.get("key"))
        obj = x.get("obj")
        name = c.get("name", "")
        if g is not None and g.get("lambda"):
            for p, a in zip(g["params"], x["args"]):
                self.vars[p["id"]] = p
                if p.get("ref") or ptrlike(p["t"]):
                    self.bind(p, self.loc(a))
            return
        if g is not None:
            s = self.E.sum[c["key"]]
            for r in s.writes:
                self.write(self.map(r, x), l)
            return
        if obj is not None and not c.get("static"):
            ot = obj.get("t", "")
            if not c.get("const") and name not in ACCESSORS and not STREAM.search(c.get("cls") or ""):
                if self.plain_ptr_var(obj):
                    if name == "operator=" and x["args"]:
                        self.bind(self.vars[obj["id"]], self.loc(x["args"][0]))
                elif not (ptrlike(ot) and not re.search(r"Eigen::|tuple<|pair<", ot) and name != "operator="):
                    self.write(self.loc(obj), l)
            if "ranges" in (c.get("qual") or ""):
                m = re.search(r"__(\w+)::__fn", c["qual"])
                self.algo(m.group(1) if m else name, x, c, l)
                return
            if not STREAM.search(c.get("cls") or ""):
                self.args(c.get("ptypes") or [], x["args"], l, c)
            elif name in ("read", "getline", "get", "operator>>"):
                for a in x["args"]:
                    self.write(self.loc(a), l)
            return
        self.algo(name, x, c, l)

    def algo(self, name, x, c, l):
        args = x["args"]
        q = c.get("qual") or ""
        if name in OUTALG and len(args) >= 3 and ("std::" in q):
            i = OUTALG[name]
            i = len(args) + i if i < 0 else min(i, len(args) - 1)
            self.write(self.loc(args[i]), l)
            return
        if name in MUTALG and "std" in q:
            for a in args:
                if not re.search(r"const [^<>]*\*", a.get("t", "")):
                    self.write(self.loc(a), l)
            return
        if name == "operator=" or (x.get("oper") or "").endswith("=") and x.get("oper") not in ("==", "!=", "<=", ">="):
            if args:
                self.write(self.loc(args[0]), l)
            return
        if name in ("operator>>", "getline", "memcpy", "memmove", "memset", "from_chars", "sscanf"):
            for a in (args[1:2] if name in ("operator>>", "getline") else args[:1] if name != "from_chars" else args[2:3]):
                self.write(self.loc(a), l)
            return
        if name == "for_each" or name == "for_each_n":
            for a in args:
                b = a
                while isinstance(b, dict) and b.get("k") in ("cast", "materialize", "construct"):
                    b = b.get("a") if b.get("k") != "construct" else (b["args"] or [None])[0]
                g = self.E.F.get(b.get("key")) if isinstance(b, dict) and b.get("k") == "lambda" else None
                if g and g["params"]:
                    p = g["params"][0]
                    self.vars[p["id"]] = p
                    if p.get("ref"):
                        self.bind(p, self.loc(args[0]))
                        if not p.get("const"):
                            self.write(self.loc(args[0]), l)
            return
        self.args(c.get("ptypes") or [], args, l, c)


# ---- rules ---------------------------------------------------------------------------------------------------

PURE = {
    "libnurbs::Curve": ["Evaluate", "EvaluateDerivative", "EvaluateAll", "HomogeneousDerivative", "IsRational", "SearchParameter", "BinarySearchParameter", "InsertKnot",
                        "RemoveKnot", "ElevateDegree", "Transform", "ExtractBezier", "GetBoundingBox", "SaveToFile"],
    "libnurbs::Surface": ["Evaluate", "EvaluateDerivative", "EvaluateAll", "HomogeneousDerivative", "IsRational", "SearchParameter", "SearchParameterOn",
                          "BinarySearchParameterOn", "InsertKnotU", "InsertKnotV", "RemoveKnotU", "RemoveKnotV", "ElevateDegreeU", "ElevateDegreeV", "Transform",
                          "AlignParameterDomain", "SaveToFile"],
    "libnurbs::KnotVector": ["GetKnotPairs", "Values", "Count", "IsValid", "IsClamped", "IsUniform", "FindSpanIndex", "FindSpan", "DetectDegree", "GetMultiplicity",
                             "operator[]", "operator()", "Uniform"],
    "libnurbs::BoundingBox": ["Contains", "Center", "Length", "Volume"],
    "libnurbs::GeomRect": ["GetSurface", "Make"],
    "libnurbs::GeomSegment": ["GetCurve", "Make"],
    "libnurbs::BSplineBasis": ["Evaluate", "EvaluateDerivative", "EvaluateAll"],
    "libnurbs::Grid": ["Get", "GetU", "GetV", "Count"],
}
OUTPARAM = {"KnotRemoval", "NurbsDegreeElevation", "BezierDegreeElevation", "ReadKnotVectorFromStream", "ReadVec4FromStream", "ReadVec4FromText", "TrimString", "ReadVec3FromStream"}


def breaks_const(prog, f, seen=None):
    """Constructs that get around const: explicit casts that drop it, mutable members."""
    out = []

    def see(x):
        if x.get("k") == "cast" and x.get("explicit"):
            a, b = x.get("from", ""), x.get("t", "")
            if "const" in a and "const" not in b and ("*" in b or "&" in b or x.get("ck") in ("NoOp", "BitCast", "LValueBitCast")) and \
               (a.replace("const ", "").replace(" const", "") != a) and x.get("ck") in ("NoOp", "BitCast", "LValueBitCast"):
                out.append((x.get("l"), "cast from %s to %s" % (a, b)))
        elif x.get("k") == "member" and x.get("mutable"):
            out.append((x.get("l"), "mutable member %s" % x.get("name")))
        elif x.get("k") == "lambda":
            g = prog["functions"].get(x.get("key"))
            if g is not None:
                walk(g.get("body"), see)
    walk(f.get("body"), see)
    return out


def g_effects(ctx):
    prog = ctx.prog
    E = Effects(prog)
    n = 0
    for key, f in sorted(prog["functions"].items()):
        if f.get("lambda") or f.get("ctor"):
            continue
        cls = f.get("cls") or ""
        base = cls.split("<")[0]
        if f["name"] not in PURE.get(base, ()):
            continue
        ctx.saw(f)
        n += 1
        ctx.nobl += 1
        S = E.sum[key]
        br = breaks_const(prog, f)
        bad = []
        for r, l in sorted(S.writes.items(), key=str):
            if r == ("this",):
                if f.get("const") and not br and not calls_breaking(prog, E, f):
                    continue
                bad.append((l, "writes the receiver"))
            elif r[0] == "parm":
                p = f["params"][r[1]]
                if STREAM.search(p["t"]):
                    continue
                if p["t"].startswith("const ") and not br and not ptrlike(p["t"]) and not calls_breaking(prog, E, f):
                    continue
                bad.append((l, "writes its argument %s" % p["name"]))
        for l, why in bad:
            ctx.add("refuted", "an operation leaves its receiver and arguments unchanged", l or f["l"], "%s: %s%s" % (key, why, " (%s)" % br[0][1] if br else ""))
        if not bad:
            ctx.add("proved", "an operation leaves its receiver and arguments unchanged", "%s %s" % (f["l"], key),
                    "may write: nothing of the caller's" + ("; not modelled: %s" % S.unknown[:3] if S.unknown else ""))
    if not n:
        from .frontend import AnalysisBroken
        raise AnalysisBroken("no operations found")


def calls_breaking(prog, E, f, seen=None):
    """Does f reach (through library calls) a construct that gets around const?"""
    seen = seen if seen is not None else set()
    if f["key"] in seen:
        return False
    seen.add(f["key"])
    if breaks_const(prog, f):
        return True
    hit = []

    def see(x):
        if x.get("k") in ("call", "construct"):
            g = prog["functions"].get((x.get("callee") or {}).get("key"))
            if g is not None and calls_breaking(prog, E, g, seen):
                hit.append(1)
    walk(f.get("body"), see)
    return bool(hit)


def g_state(ctx, only=None):
    """No state survives a call: statics, globals, mutable members, ambient inputs."""
    prog = ctx.prog
    bad = 0
    n = 0
    E = Effects(prog)
    for key, f in sorted(prog["functions"].items()):
        if only is not None and key not in only:
            continue
        n += 1
        ctx.nobl += 1
        dep = {p["id"] for p in f["params"]}
        inner = set()

        def locals_(x):
            if x.get("k") == "decl":
                for v in x["vars"]:
                    if not v.get("static") and not v.get("constexpr"):
                        inner.add(v["id"])
            elif x.get("k") == "rangefor":
                inner.add(x["var"]["id"])
        walk(f.get("body"), locals_)

        def see(x):
            nonlocal bad
            if x.get("k") == "decl":
                for v in x["vars"]:
                    if not v.get("static"):
                        continue
                    uses = []

                    def use(y):
                        if y.get("k") == "this" or (y.get("k") == "ref" and (y.get("dk") == "parm" or y.get("id") in inner)):
                            uses.append(y.get("name", "this"))
                        elif y.get("k") == "lambda":
                            for c_ in y.get("captures") or []:
                                walk(c_, use)
                    walk(v.get("init"), use)
                    if uses and not v.get("constexpr"):
                        bad += 1
                        ctx.add("refuted", "nothing is remembered from one call to the next", x.get("l"), "%s: static variable %s keeps the value computed from %s in the first call" % (key, v["name"], uses[0]))
            elif x.get("k") == "call":
                q = x["callee"].get("qual") or ""
                nm = x["callee"].get("name")
                if (nm in AMBIENT and (q in (nm, "std::" + nm, "std::__1::" + nm))) or q.startswith(AMBIENT_TYPES):
                    bad += 1
                    ctx.add("refuted", "the outcome depends on receiver and arguments alone", x.get("l"), "%s: calls %s" % (key, q))
            elif x.get("k") == "construct" and (x.get("t") or "").startswith(AMBIENT_TYPES):
                bad += 1
                ctx.add("refuted", "the outcome depends on receiver and arguments alone", x.get("l"), "%s: uses %s" % (key, x["t"]))
        walk(f.get("body"), see)
        for r, l in E.sum[key].writes.items():
            if r[0] in ("static", "global"):
                bad += 1
                ctx.add("refuted", "nothing is remembered from one call to the next", l or f["l"], "%s: writes %s variable %s" % (key, r[0], r[1]))

        def mut(x):
            nonlocal bad
            pass
    for name, r in sorted(prog["records"].items()) if only is None else ():
        for fl in r["fields"]:
            ctx.nobl += 1
            if not fl.get("mutable"):
                continue
            # written (or handed out) by some operation?
            sites = []

            def see2(x):
                if x.get("k") == "member" and x.get("mutable") and x.get("name") == fl["name"]:
                    sites.append(x.get("l"))
            for f in prog["functions"].values():
                if f.get("const") or f.get("lambda"):
                    walk(f.get("body"), see2)
            if sites and "mutex" not in fl["t"]:
                bad += 1
                ctx.add("refuted", "nothing is remembered from one call to the next", sites[0], "mutable member %s::%s is used in an operation on a const object" % (name, fl["name"]))
    if not bad:
        ctx.add("proved", "nothing is remembered from one call to the next; results depend on receiver and arguments alone", "src/ include/",
                "%d functions, %d records, %d globals: no writable static, global or mutable state, no ambient input" % (n, len(prog["records"]), len(prog["globals"])))


def reached(prog, start):
    """Functions reachable through calls, constructions and lambdas."""
    todo, seen = list(start), set()
    while todo:
        k = todo.pop()
        f = prog["functions"].get(k)
        if f is None or k in seen:
            continue
        seen.add(k)

        def see(x):
            if x.get("k") in ("call", "construct", "ref", "lambda"):
                for q in ((x.get("callee") or {}).get("key"), x.get("key")):
                    if q:
                        todo.append(q)
        walk(f.get("body"), see)
    return seen


def g_load_state(ctx):
    """What a load leaves in the object comes from its stream: nothing is carried over from earlier loads."""
    start = [k for k, f in ctx.prog["functions"].items() if f.get("name") == "LoadFromFile"]
    g_state(ctx, reached(ctx.prog, start))
