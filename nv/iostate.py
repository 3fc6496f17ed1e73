"""Abstract interpretation of the loading and saving functions: stream typestate, provenance of stored values, output format.

The body of a function is interpreted over sets of abstract states with every repository function inlined.  A state knows,
per stream, whether an operation since the last successful test may have failed and whether output is unflushed; per
variable a symbolic description of where its content comes from; and the facts the branches taken established.  Loops are
iterated to a fixpoint with values that change from one iteration to the next replaced by loop symbols, so every path and
every number of iterations is covered.  Nothing is executed."""
import copy
import re

ISTREAM = re.compile(r"(^|:)(i|io|if|o|of|string|istring|ostring|f)stream\b|basic_\w*stream|std::ios\b")
LOCALSTR = re.compile(r"(^|:)(string|istring|ostring)stream\b|basic_\w*stringstream")
COMP = {"x": 0, "y": 1, "z": 2, "w": 3}


def P(root, *steps):
    return ("path", root) + tuple(steps)


THIS = P("this")


def is_path(v):
    return isinstance(v, tuple) and v and v[0] == "path"


def under(p, q):
    """p lies at or below q"""
    return len(p) >= len(q) and p[:len(q)] == q


def mentions(v, f):
    if f(v):
        return True
    if isinstance(v, tuple):
        return any(mentions(x, f) for x in v)
    return False


def show(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if v[0] == "path":
        s = v[1] if isinstance(v[1], str) else v[1][-1]
        for x in v[2:]:
            s += "." + x[1] if x[0] == "f" else "[%s]" % (show(x[1]),) if x[0] == "e" else "." + "xyzw"[x[1]] if x[0] == "c" and isinstance(x[1], int) and x[1] < 4 else "(%s)" % (x[1],)
        return s.replace("this.", "")
    if v[0] == "lit":
        return repr(v[1]) if isinstance(v[1], str) else str(v[1])
    if v[0] == "bin":
        return "%s %s %s" % (show(v[2]), v[1], show(v[3]))
    if v[0] in ("val", "old"):
        return show(v[1])
    if v[0] == "phi":
        return show(v[2]) if is_path(v[2]) else "loop value"
    return "%s(%s)" % (v[0], ", ".join(show(x) for x in v[1:]))[:80]


class St:
    __slots__ = ("heap", "streams", "facts", "log", "killed", "maybe", "caught", "undet", "alias")

    def __init__(self):
        self.heap, self.streams, self.alias = {}, {}, {}
        self.facts, self.killed, self.maybe, self.undet = frozenset(), frozenset(), frozenset(), frozenset()
        self.log = ()
        self.caught = False

    def copy(self):
        s = St.__new__(St)
        s.heap, s.streams, s.alias = dict(self.heap), dict(self.streams), dict(self.alias)
        s.facts, s.killed, s.maybe, s.undet, s.log, s.caught = self.facts, self.killed, self.maybe, self.undet, self.log, self.caught
        return s

    def ident(self):
        return (tuple(sorted(self.heap.items(), key=repr)), tuple(sorted(self.streams.items(), key=repr)), self.facts, self.killed, self.maybe, self.undet, self.caught,
                tuple(sorted(self.alias.items(), key=repr)), self.log)

    def emit(self, *e):
        self.log = self.log + (e,)


class Stream(tuple):
    """(content, status, pending, unflushed, precision, floatfield, count, opened)"""
    F = ("content", "status", "pending", "unflushed", "prec", "ff", "n", "dirn")

    def __new__(cls, **kw):
        return tuple.__new__(cls, tuple(kw[f] for f in Stream.F))

    def __getattr__(self, f):
        try:
            return self[Stream.F.index(f)]
        except ValueError:
            raise AttributeError(f)

    def put(self, **kw):
        d = dict(zip(Stream.F, self))
        d.update(kw)
        return Stream(**d)


class Out:
    def __init__(self):
        self.normal, self.ret, self.brk, self.cont, self.throw = [], [], [], [], []


class Frame:
    def __init__(self, fid, fn, this, vars):
        self.fid, self.fn, self.this, self.vars = fid, fn, this, vars


class TooHard(Exception):
    pass


def conv(s, dflt=None):
    return s


class IO:
    def __init__(self, prog, rec):
        self.prog, self.rec = prog, rec        # rec(kind, loc, text): a violation was seen on some path
        self.quiet = 0
        self.depth = 0
        self.steps = 0
        self.fn_seen = {}
        self.calls = 0
        self.lvset = set()

    # ---- entry
    def run(self, fn, streams=()):
        st = St()
        fr = Frame(("e", fn["key"]), fn, THIS, {})
        for p in fn["params"]:
            path = P(("v", fr.fid, p["id"], p["name"]))
            fr.vars[p["id"]] = path
            if ISTREAM.search(p["t"]):
                st.streams[path] = Stream(content=("input",), status="clean", pending=frozenset(), unflushed=False, prec=None, ff=None, n=0, dirn="param")
        self.fn_seen[fn["key"]] = fn
        o = self.stmt(fn["body"], [st], fr)
        fin = [(s, None) for s in o.normal] + o.ret
        return fin, o.throw

    # ---- helpers
    def alarm(self, st, kind, loc, text):
        if not self.quiet:
            self.rec(kind, loc, text)

    def und(self, st, why):
        st.undet = st.undet | {why}

    def content(self, st, v):
        """rvalue of a path"""
        if not is_path(v):
            return v
        if v in st.heap:
            return st.heap[v]
        if v[1] == "this" and not any(under(v, k) for k in st.killed) and v not in st.maybe:
            return ("old", v)
        return ("val", v)

    def assign(self, st, p, val, loc, event=True):
        """p := val"""
        if not is_path(p):
            return
        shown = val
        self.invalidate(st, p)
        sub = []
        if is_path(val):
            src = val
            sub = [(k, x) for k, x in st.heap.items() if under(k, src) and k != src]
            val = self.content(st, src)
            shown = ("parts",) + tuple(sorted(((k[len(src):], x) for k, x in sub), key=repr)) if sub else val
            if event and p[1] == "this":
                st.emit("move", src, p)
        for k in [k for k in st.heap if under(k, p) and k != p]:
            del st.heap[k]
        st.heap[p] = val
        for k, x in sub:
            st.heap[p + k[len(src):]] = x
        if p[1] == "this" and event:
            old = mentions(val, lambda x: isinstance(x, tuple) and x and x[0] == "old")
            st.killed = frozenset(k for k in st.killed if not under(k, p))
            if old:
                st.maybe = st.maybe | {p}
            else:
                elem = any(s[0] in ("e", "c") for s in p[2:])
                if not elem:
                    st.killed = st.killed | {p}
                    st.maybe = frozenset(k for k in st.maybe if not under(k, p))
            st.emit("store", p, shown, "=", loc, st.facts)
        elif event and any(s[0] in ("e",) for s in p[2:]):
            st.emit("store", p, shown, "=", loc, st.facts)

    def invalidate(self, st, p):
        def hit(x):
            return isinstance(x, tuple) and len(x) > 1 and x[0] in ("val", "old", "size") and is_path(x[1]) and (under(x[1], p) or under(p, x[1]))
        if any(mentions(f, hit) for f in st.facts):
            st.facts = frozenset(f for f in st.facts if not mentions(f, hit))

    def modify(self, st, p, how, loc, vals=()):
        """container operation"""
        self.invalidate(st, p)
        for k in [k for k in st.heap if under(k, p) and k != p]:
            del st.heap[k]
        st.heap[p] = ("mod", how, loc)
        if p[1] == "this":
            fresh = any(under(p, k) for k in st.killed)
            if how == "clear" or how == "assign":
                st.killed = st.killed | {p}
            elif how == "append" and not fresh:
                if p in st.maybe:
                    self.und(st, "appends to content of unclear origin")
                else:
                    self.alarm(st, "old", loc, "appends to %s, which still holds the object's previous content" % show(p))
            elif not fresh:
                st.maybe = st.maybe | {p}

    def fact(self, st, atom, pol):
        st.facts = st.facts | {(atom, pol)}

    def known(self, st, atom):
        if (atom, True) in st.facts:
            return True
        if (atom, False) in st.facts:
            return False
        if atom[0] == "eq":
            a, b = atom[1], atom[2]
            for (f, pol) in st.facts:
                if pol and f[0] == "eq":
                    for x, y in ((a, b), (b, a)):
                        for u, w in ((f[1], f[2]), (f[2], f[1])):
                            if x == u and y[0] == "lit" and w[0] == "lit" and y != w:
                                return False
        if atom[0] == "lt":
            lo, hi = self.range(st, atom[1]), self.range(st, atom[2])
            if lo[1] is not None and hi[0] is not None and lo[1] < hi[0]:
                return True
            if lo[0] is not None and hi[1] is not None and lo[0] >= hi[1]:
                return False
        return None

    def range(self, st, v):
        """(lo, hi) integer bounds known from the facts"""
        if v[0] == "lit" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            return (v[1], v[1])
        lo = hi = None
        if v[0] == "size":
            lo = 0
        for (f, pol) in st.facts:
            if f[0] == "lt":
                a, b = f[1], f[2]
                if a == v and b[0] == "lit":
                    if pol:
                        hi = b[1] - 1 if hi is None else min(hi, b[1] - 1)
                    else:
                        lo = b[1] if lo is None else max(lo, b[1])
                if b == v and a[0] == "lit":
                    if pol:
                        lo = a[1] + 1 if lo is None else max(lo, a[1] + 1)
                    else:
                        hi = a[1] if hi is None else min(hi, a[1])
            elif f[0] == "eq" and pol:
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if x == v and y[0] == "lit" and isinstance(y[1], int):
                        lo = hi = y[1]
        return lo, hi

    # ---- conditions
    def decide(self, st, v):
        """boolean value -> [(state, bool)]"""
        v = self.content(st, v)
        pol = True
        while True:
            if v[0] == "not":
                v, pol = v[1], not pol
                continue
            if v[0] == "cmp":
                op, a, b = v[1], v[2], v[3]
                if op == "!=":
                    v, pol = ("cmp", "==", a, b), not pol
                    continue
                if op == "==":
                    if b[0] == "lit" and isinstance(b[1], bool):
                        v, pol = a, (pol if b[1] else not pol)
                        continue
                    v = ("eq",) + tuple(sorted((a, b), key=repr))
                    break
                if op == "<":
                    v = ("lt", a, b)
                elif op == ">":
                    v = ("lt", b, a)
                elif op == "<=":
                    v, pol = ("lt", b, a), not pol
                elif op == ">=":
                    v, pol = ("lt", a, b), not pol
                break
            break
        if v[0] == "lit":
            return [(st, bool(v[1]) == pol)]
        if v[0] == "eq" and v[1][0] == "lit" and v[2][0] == "lit":
            return [(st, (v[1][1] == v[2][1]) == pol)]
        if v[0] == "empty":
            v = ("eq", ("lit", 0), ("size", v[1]))
        k = self.known(st, v)
        if k is not None:
            return [(st, k == pol)]
        a, b = st, st.copy()
        self.fact(a, v, True)
        self.fact(b, v, False)
        return [(a, pol), (b, not pol)]

    def cond(self, e, st, fr):
        out = []
        if e is None:
            return [(st, True)]
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            for s, b in self.cond(e["a"], st, fr):
                if b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e["b"], s, fr)
            return out
        if e["k"] == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["a"], st, fr)]
        for s, v in self.ev(e, st, fr):
            if v == ("throw",):
                out.append((s, v))
            else:
                out += self.decide(s, v)
        return out

    # ---- stream operations
    def fresh_stream(self, st, p, content, kind, opened=None):
        st.streams[p] = Stream(content=content, status="clean" if opened is None else "unk", pending=frozenset(), unflushed=False, prec=6, ff="default", n=0, dirn=kind)

    def test(self, st, p, what, loc):
        """outcomes of a stream test: [(state, value)]"""
        s = st.streams[p]
        if s.status == "lost" and what in ("fail", "!", "good", "bool", "bad"):
            # an earlier failure may have been cleared: a test says nothing about it
            v = what not in ("good", "bool")
            a = st.copy()
            a.streams[p] = s.put(status="fail")
            return [(st, ("lit", not v)), (a, ("lit", v))]
        if what in ("fail", "!"):
            if s.status == "clean":
                return [(st, ("lit", False))]
            if s.status in ("fail", "eof"):
                return [(st, ("lit", True))]
            a, b = st, st.copy()
            a.streams[p] = s.put(status="fail")
            b.streams[p] = s.put(status="clean", pending=frozenset())
            return [(a, ("lit", True)), (b, ("lit", False))]
        if what in ("good", "bool"):
            out = []
            for t, v in self.test(st, p, "fail", loc):
                if what == "good" and v == ("lit", False):
                    # eofbit may be set without failbit
                    t2 = t.copy()
                    out.append((t2, ("lit", False)))
                out.append((t, ("lit", not v[1])))
            return out
        if what == "bad":
            if s.status == "clean":
                return [(st, ("lit", False))]
            if s.status == "eof":
                return [(st, ("lit", False))]
            a, b = st, st.copy()
            a.streams[p] = s.put(status="fail")
            b.streams[p] = s.put(status="eof" if s.status == "fail" else s.status)
            return [(a, ("lit", True)), (b, ("lit", False))]
        if what == "eof":
            b = st.copy()
            return [(st, ("lit", True)), (b, ("lit", False))]
        if what == "is_open":
            if s.status == "clean":
                b = st.copy()
                return [(st, ("lit", True))]
            a, b = st, st.copy()
            if s.dirn == "file!":
                a.streams[p] = s.put(status="clean", dirn="file")
            b.streams[p] = s.put(status="fail")
            return [(a, ("lit", True)), (b, ("lit", False))]
        return [(st, ("top", what))]

    def extract(self, st, p, target, ty, loc, fr):
        """stream >> target"""
        s = st.streams.get(p)
        if s is None:
            self.und(st, "extraction from an unknown stream")
            return
        isstr = "string" in ty
        if isstr:
            val = ("tok", s.content, s.n)
        else:
            kind = re.sub(r"\b(const|libnurbs::)\b ?", "", ty).replace("&", "").strip()
            val = ("ext", loc, kind, s.content, s.n)
        self.drop_facts(st, val)
        st.streams[p] = s.put(status="unk" if s.status in ("clean", "unk") else s.status, n=s.n + 1 if isinstance(s.n, int) and s.n < 12 else "many",
                              pending=s.pending if isstr else s.pending | {(target, loc)})
        if not isstr:
            st.emit("ext", val, target, loc)
        self.assign(st, target, val, loc)

    def drop_facts(self, st, val):
        if any(mentions(f, lambda x: x == val) for f in st.facts):
            st.facts = frozenset(f for f in st.facts if not mentions(f, lambda x: x == val))

    def getline(self, st, p, target, delim, loc):
        s = st.streams.get(p)
        if s is None:
            self.und(st, "line read from an unknown stream")
            return
        val = ("line", s.content, delim)
        if s.dirn in ("param", "file", "file!"):
            n = s.n
            st.streams[p] = s.put(status="unk" if s.status in ("clean", "unk") else s.status, n=n + 1 if isinstance(n, int) and n < 40 else "many")
            val = ("line", s.content, delim, n if n == 0 else "later")
        else:
            st.streams[p] = s.put(status="unk" if s.status in ("clean", "unk") else s.status)
        self.drop_facts(st, val)
        self.assign(st, target, val, loc, event=False)

    def output(self, st, p, v, ty, loc):
        s = st.streams.get(p)
        if s is None:
            self.und(st, "output to an unknown stream")
            return
        if v[0] == "manip":
            m = v[1]
            if m in ("endl", "flush"):
                if m == "endl":
                    st.emit("out", p, ("lit", "\n"), "char", None, None, loc)
                st.streams[p] = s.put(status="unk" if s.status == "clean" else s.status, unflushed=False)
            elif m == "setprecision":
                st.streams[p] = s.put(prec=v[2][1] if v[2][0] == "lit" else "?")
            elif m in ("defaultfloat", "scientific", "fixed", "hexfloat"):
                st.streams[p] = s.put(ff={"defaultfloat": "default"}.get(m, m))
            elif m in ("dec", "skipws", "boolalpha", "noboolalpha", "showpoint", "noshowpoint", "left", "right"):
                pass
            elif m == "setw":
                st.emit("width", loc)
            else:
                st.emit("manip", m, loc)
            return
        st.emit("out", p, v, ty, s.prec, s.ff, loc)
        st.streams[p] = s.put(status="unk" if s.status == "clean" else s.status, unflushed=True)

    # ---- lvalues
    def tmp(self, e, fr, st, v):
        p = P(("v", fr.fid, id(e), "temporary"))
        st.heap[p] = v
        return p

    def lv(self, e, st, fr):
        k = e["k"]
        if k == "ref":
            i = e.get("id")
            dk = e.get("dk")
            if dk in ("var", "parm", "decomp", "binding"):
                if i in fr.vars:
                    p = fr.vars[i]
                    return [(st, st.alias.get(p, p))]
                return [(st, P(("v", "?", i, e["name"])))]
            if dk == "global":
                return [(st, P(("g", e.get("qual", e["name"]))))]
            return [(st, P(("x", e.get("name"))))]
        if k == "this":
            return [(st, ("addr", fr.this))]
        if k == "member" and e.get("dk") == "field":
            out = []
            for s, b in self.lv(e["base"], st, fr) if not e.get("arrow") else self.ev(e["base"], st, fr):
                if isinstance(b, tuple) and b and b[0] == "addr":
                    b = b[1]
                out.append((s, b + (("f", e["name"]),) if is_path(b) else P(("x", "?"))))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s, v in self.ev(e["a"], st, fr):
                if v[0] == "addr":
                    out.append((s, v[1]))
                elif v[0] == "iter" and is_path(v[1]):
                    out.append((s, v[1] + (("e", v[2]),)))
                else:
                    out.append((s, P(("x", "deref", show(v)[:40]))))
            return out
        if k == "index":
            out = []
            for s, b in self.ev(e["a"], st, fr):
                for s2, i in self.ev(e["b"], s, fr):
                    if b[0] == "addr":
                        b = b[1]
                    out.append((s2, b + (("e", i),) if is_path(b) else P(("x", "index"))))
            return out
        if k == "cast":
            return self.lv(e["a"], st, fr)
        if k == "assign" or k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            return [(s, self._last(s, e, fr)) for s, v in self.ev(e, st, fr)]
        if k == "call":
            self.lvset.add(id(e))
        out = []
        for s, v in self.ev(e, st, fr):
            if is_path(v):
                out.append((s, v))
            elif v == ("throw",):
                out.append((s, v))
            else:
                out.append((s, self.tmp(e, fr, s, v)))
        return out

    def _last(self, s, e, fr):
        r = self.lv(e["a"], s, fr)
        return r[0][1]

    def args(self, es, st, fr, mode="ev"):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in (self.lv(e, s, fr) if mode == "lv" else self.ev(e, s, fr)):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    # ---- expressions
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 3000000:
            raise TooHard("too many abstract steps")
        if e is None:
            return [(st, ("none",))]
        k = e["k"]
        if "cv" in e and e.get("k") != "assign":
            c = e["cv"]
            if e["cvk"] == "b":
                return [(st, ("lit", bool(c)))]
            if e["cvk"] == "i":
                return [(st, ("lit", int(c)))]
            return [(st, ("lit", float.fromhex(c)))]
        if k == "int":
            return [(st, ("lit", int(e["v"])))]
        if k == "float":
            return [(st, ("lit", float(e["v"])))]
        if k == "bool":
            return [(st, ("lit", bool(e["v"])))]
        if k == "str":
            return [(st, ("lit", e["v"]))]
        if k in ("null", "zero"):
            return [(st, ("lit", 0))]
        if k == "this":
            return [(st, ("addr", fr.this))]
        if k == "ref":
            if e.get("dk") == "func":
                return [(st, ("manip", e["name"]))]
            if e.get("dk") == "enum":
                return [(st, ("lit", int(e["v"])))]
            if e.get("dk") == "global" and e.get("repo"):
                g = self.prog["globals"].get(e.get("qual"))
                if g and g.get("init"):
                    v = self.strlit(g["init"])
                    if v is not None:
                        return [(st, ("lit", v))]
            out = []
            for s, p in self.lv(e, st, fr):
                out.append((s, p if self.classy(e["t"]) else self.content(s, p)))
            return out
        if k in ("member", "index"):
            return [(s, p if self.classy(e["t"]) else self.content(s, p)) for s, p in self.lv(e, st, fr)]
        if k == "cast":
            out = []
            for s, v in self.ev(e["a"], st, fr):
                t = e["t"]
                if t in ("float", "short", "char", "unsigned char", "short int") and "char" not in e.get("from", ""):
                    v = ("narrow", t, self.content(s, v))
                elif t in ("int", "long", "unsigned long", "unsigned int") and e.get("from") in ("double", "float"):
                    v = ("narrow", t, self.content(s, v))
                elif e.get("ck") in ("IntegralToBoolean", "FloatingToBoolean") and v[0] != "lit":
                    v = ("cmp", "!=", v, ("lit", 0))
                out.append((s, v))
            return out
        if k == "defarg":
            return self.ev(e["a"], st, fr)
        if k == "assert":
            return [(s, ("none",)) for s, b in self.cond(e["a"], st, fr) if b is True]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st, fr):
                out += self.ev(e["a"] if b else e["b"], s, fr)
            return out
        if k == "throw":
            return [(st, ("throw",))]
        if k == "un":
            return self.unary(e, st, fr)
        if k in ("bin", "rewritten"):
            return self.binary(e, st, fr)
        if k == "assign":
            out = []
            for s, v in self.ev(e["b"], st, fr):
                for s2, p in self.lv(e["a"], s, fr):
                    if e["op"] != "=":
                        v2 = self.fold(e["op"][:-1], self.content(s2, p), self.content(s2, v))
                    else:
                        v2 = v
                    self.assign(s2, p, v2, e["l"])
                    out.append((s2, p if self.classy(e["t"]) else self.content(s2, v2)))
            return out
        if k == "lambda":
            key = e.get("key")
            return [(st, ("closure", key, id(fr), tuple((c.get("k"), c.get("id")) for c in e.get("captures", []))))] if not self.keep(fr) else []
        if k == "construct":
            return self.construct(e, st, fr)
        if k == "initlist":
            outs = self.args(e["args"], st, fr)
            if len(e["args"]) == 1 and not self.classy(e["t"]):
                return [(s, vs[0]) for s, vs in outs]
            return [(s, ("init", e["t"][:40]) + tuple(self.content(s, v) for v in vs)) for s, vs in outs]
        if k == "stdinitlist":
            return self.ev(e["a"], st, fr)
        if k == "call":
            return self.call(e, st, fr)
        if k in ("sizeof", "trait"):
            return [(st, ("top", "sizeof"))]
        return [(st, ("top", k))]

    frames = None

    def keep(self, fr):
        if self.frames is None:
            self.frames = {}
        self.frames[id(fr)] = fr
        return False

    def strlit(self, e):
        while e is not None:
            if e["k"] == "str":
                return e["v"]
            if e["k"] in ("construct",) and e.get("args"):
                e = e["args"][0]
            elif e["k"] in ("cast", "defarg"):
                e = e["a"]
            elif e["k"] == "initlist" and e.get("args"):
                e = e["args"][0]
            else:
                return None

    def classy(self, t):
        t = re.sub(r"^const ", "", t).strip()
        return not (t.endswith("*") or t in ("int", "double", "float", "bool", "char", "long", "unsigned long", "unsigned int", "unsigned char", "short", "long double",
                                             "unsigned short", "long long", "unsigned long long") or t.startswith("enum"))

    def fold(self, op, a, b):
        if a[0] == "lit" and b[0] == "lit" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                if op == "+": return ("lit", a[1] + b[1])
                if op == "-": return ("lit", a[1] - b[1])
                if op == "*": return ("lit", a[1] * b[1])
                if op == "|": return ("lit", a[1] | b[1])
                if op == "/" and isinstance(a[1], int) and isinstance(b[1], int) and b[1]: return ("lit", int(a[1] / b[1]))
            except TypeError:
                pass
        if op == "+" and a[0] == "lit" and isinstance(a[1], str) and b[0] == "lit" and isinstance(b[1], str):
            return ("lit", a[1] + b[1])
        return ("bin", op, a, b)

    def unary(self, e, st, fr):
        op = e["op"]
        if op == "!":
            return [(s, ("lit", not b)) for s, b in self.cond(e["a"], st, fr)]
        if op == "&":
            return [(s, ("addr", p)) for s, p in self.lv(e["a"], st, fr)]
        if op == "*":
            return [(s, p if self.classy(e["t"]) else self.content(s, p)) for s, p in self.lv(e, st, fr)]
        if op in ("++", "--"):
            out = []
            for s, p in self.lv(e["a"], st, fr):
                old = self.content(s, p)
                if old[0] == "iter":
                    new = ("iter", old[1], self.fold("+" if op == "++" else "-", old[2], ("lit", 1)))
                else:
                    new = self.fold("+" if op == "++" else "-", old, ("lit", 1))
                self.assign(s, p, new, e["l"])
                out.append((s, old if e.get("post") else new))
            return out
        if op == "-":
            return [(s, self.fold("-", ("lit", 0), self.content(s, v))) for s, v in self.ev(e["a"], st, fr)]
        return self.ev(e["a"], st, fr)

    def binary(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s, ("lit", b)) for s, b in self.cond(e, st, fr)]
        if op == ",":
            return [x for s, v in self.ev(e["a"], st, fr) for x in self.ev(e["b"], s, fr)]
        out = []
        for s, (a, b) in [(s, vs) for s, vs in self.args([e["a"], e["b"]], st, fr)]:
            a, b = self.content(s, a), self.content(s, b)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out.append((s, self.cmp(op, a, b)))
            else:
                v = self.fold(op, a, b)
                if op == "*" and v[0] == "bin" and e["t"] == "int":
                    self.on_mul(s, a, b, e["l"])
                out.append((s, v))
        return out

    def cmp(self, op, a, b):
        if a[0] == "lit" and b[0] == "lit" and type(a[1]) == type(b[1]):
            r = {"==": a[1] == b[1], "!=": a[1] != b[1]}.get(op)
            if r is None:
                r = {"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]
            return ("lit", r)
        if a[0] == "iter" and b[0] == "iter" and op in ("==", "!="):
            return ("cmp", op, a, b)
        return ("cmp", op, a, b)

    # hooks of the rules
    def on_mul(self, st, a, b, loc):
        pass

    def on_size(self, st, p, v, loc, what):
        pass

    def used(self, st, v, loc, what):
        """a value decides a size or a number of iterations: it must have been read successfully"""
        for p, s in st.streams.items():
            if s.status == "clean":
                continue
            for t, l in s.pending:
                c = st.heap.get(t)
                if c is not None and mentions(v, lambda x: x == c):
                    self.alarm(st, "unread", loc, "%s depends on %s before it is known that it was read" % (what, show(t)))

    # ---- construction
    def construct(self, e, st, fr):
        t = e["t"]
        c = e.get("callee", {})
        if LOCALSTR.search(t):
            out = []
            for s, vs in self.args([a for a in e["args"] if a["k"] != "defarg"], st, fr):
                p = P(("v", fr.fid, id(e), "stream"))
                self.fresh_stream(s, p, self.content(s, vs[0]) if vs else ("lit", ""), "local")
                out.append((s, p))
            return out
        if ISTREAM.search(t):
            out = []
            for s, vs in self.args([a for a in e["args"] if a["k"] != "defarg"], st, fr):
                p = P(("v", fr.fid, id(e), "stream"))
                self.fresh_stream(s, p, ("input",), "file!" if vs else "file", opened=False if vs else None)
                out.append((s, p))
            return out
        if c.get("copy") or c.get("move"):
            return self.ev(e["args"][0], st, fr)
        if "string" in t and len([a for a in e["args"] if a["k"] != "defarg"]) <= 1:
            a = [x for x in e["args"] if x["k"] != "defarg"]
            if not a:
                return [(st, ("lit", ""))]
            return [(s, self.content(s, v)) for s, v in self.ev(a[0], st, fr)]
        key = c.get("key")
        if key and key in self.prog["functions"] and self.prog["functions"][key].get("ctor") and not c.get("trivialish"):
            out = []
            for s, vs in self.args(e["args"], st, fr):
                out.append((s, ("obj", t[:40]) + tuple(self.content(s, v) for v in vs)))
            return out
        out = []
        for s, vs in self.args(e["args"], st, fr):
            vs = [self.content(s, v) for v in vs]
            if "vector" in t and vs:
                self.used(s, vs[0], e["l"], "a container's size")
            out.append((s, ("obj", t[:40]) + tuple(vs)))
        return out

    # ---- calls
    def call(self, e, st, fr):
        c = e.get("callee") or {}
        name = c.get("name", "")
        oper = e.get("oper")
        cls = c.get("cls") or ""
        out = []
        if oper == "()" and e.get("obj") is not None:
            for s, f in self.ev(e["obj"], st, fr):
                f = self.content(s, f)
                if f[0] == "closure" and f[1] in self.prog["functions"]:
                    dfr = self.frames.get(f[2])
                    out += self.inline(self.prog["functions"][f[1]], e, e["args"], s, fr, dfr.this if dfr else None, dict(dfr.vars) if dfr else {})
                else:
                    self.und(s, "call of an unknown function object")
                    out.append((s, ("top", "call")))
            return out
        if c.get("repo") and c.get("key") in self.prog["functions"] and not (c.get("ctor")):
            fn = self.prog["functions"][c["key"]]
            if fn["name"] == "TrimString" and len(fn["params"]) == 1:
                self.fn_seen[fn["key"]] = fn
                for s, p in self.lv(e["args"][0], st, fr):
                    v = self.content(s, p)
                    self.assign(s, p, v if v[0] == "trim" else ("trim", v), e["l"], event=False)
                    out.append((s, ("none",)))
                return out
            if e.get("obj") is not None:
                for s, o in (self.ev(e["obj"], st, fr) if e.get("arrow") else self.lv(e["obj"], st, fr)):
                    if o and o[0] == "addr":
                        o = o[1]
                    out += self.inline(fn, e, e["args"], s, fr, o, {})
                return out
            return self.inline(fn, e, e["args"], st, fr, None, {})
        if c.get("copyassign") or c.get("moveassign") or (oper == "=" and e.get("obj") is not None):
            for s, v in self.ev(e["args"][0], st, fr):
                for s2, p in self.lv(e["obj"], s, fr):
                    self.assign(s2, p, v, e["l"])
                    out.append((s2, p))
            return out
        return self.library(e, c, name, oper, cls, st, fr)

    def inline(self, fn, e, args, st, fr, this, base):
        self.depth += 1
        self.calls += 1
        self.fn_seen[fn["key"]] = fn
        if self.depth > 24:
            raise TooHard("calls nested too deeply")
        try:
            fid = (fr.fid, id(e), fn["key"][:60])
            fid = hash(fid)
            outs = [(st, [])]
            for i, p in enumerate(fn["params"]):
                nxt = []
                for s, vs in outs:
                    if i < len(args):
                        ref = p["t"].rstrip().endswith("&")
                        for s2, v in (self.lv(args[i], s, fr) if ref and self.classy(re.sub(r"&+$", "", p["t"]).strip()) or ref and not p.get("const") else self.ev(args[i], s, fr)):
                            nxt.append((s2, vs + [v]))
                    else:
                        nxt.append((s, vs + [("top", "arg")]))
                outs = nxt
            res = []
            for s, vs in outs:
                nf = Frame(fid, fn, this, base)
                nf.vars = dict(base)
                for p, v in zip(fn["params"], vs):
                    path = P(("v", fid, p["id"], p["name"]))
                    nf.vars[p["id"]] = path
                    if is_path(v) and p["t"].rstrip().endswith("&"):
                        nf.vars[p["id"]] = s.alias.get(v, v)
                    elif isinstance(v, tuple) and v and v[0] == "path":
                        self.assign(s, path, v, e["l"], event=False)
                        if v in s.streams:
                            s.streams[path] = s.streams[v]
                    else:
                        self.assign(s, path, v, e["l"], event=False)
                self.keep(nf)
                o = self.stmt(fn["body"], [s], nf)
                for t in o.normal:
                    res.append((t, ("none",)))
                for t, v in o.ret:
                    res.append((t, v if v is not None else ("none",)))
                for t in o.throw:
                    res.append((t, ("throw",)))
            return dedupe(res)
        finally:
            self.depth -= 1

    def library(self, e, c, name, oper, cls, st, fr):
        out = []
        args = [a for a in e.get("args", []) if a["k"] != "defarg"]
        obj = e.get("obj")
        loc = e["l"]
        qual = c.get("qual", "")
        # streams ------------------------------------------------------------------------------------------
        if oper in (">>", "<<") and (obj is not None or len(args) == 2):
            left = obj if obj is not None else args[0]
            right = args[0] if obj is not None else args[1]
            if ISTREAM.search(left["t"]):
                for s, p in self.lv(left, st, fr):
                    if p == ("throw",):
                        out.append((s, p))
                        continue
                    if oper == ">>":
                        if right["k"] == "ref" and right.get("dk") == "func":
                            out.append((s, p))
                            continue
                        for s2, t in self.lv(right, s, fr):
                            self.extract(s2, p, t, right["t"], loc, fr)
                            out.append((s2, p))
                    else:
                        for s2, v in self.ev(right, s, fr):
                            if v == ("throw",):
                                out.append((s2, v))
                                continue
                            v2 = v if v[0] == "manip" else self.content(s2, v)
                            self.output(s2, p, v2, right["t"], loc)
                            out.append((s2, p))
                return out
        if name == "getline" and qual.startswith("std::") and obj is None:
            for s, vs in self.args(args[:2], st, fr, "lv"):
                d = ("lit", 10)
                if len(args) > 2:
                    d = self.ev(args[2], s, fr)[0][1]
                self.getline(s, vs[0], vs[1], d[1] if d[0] == "lit" else "?", loc)
                out.append((s, vs[0]))
            return out
        if obj is not None and ISTREAM.search(obj["t"]):
            for s, p in self.lv(obj, st, fr):
                if p and p[0] == "addr":
                    p = p[1]
                out += self.stream_member(e, name, oper, args, s, p, fr, loc)
            return out
        # strings and containers ---------------------------------------------------------------------------
        if name in ("move", "forward", "as_const") and len(args) == 1:
            return self.ev(args[0], st, fr) if not self.classy(args[0]["t"]) else self.lv(args[0], st, fr)
        if oper in ("==", "!=", "<", ">", "<=", ">="):
            two = ([obj] if obj is not None else []) + args
            for s, vs in self.args(two, st, fr):
                out.append((s, self.cmp(oper, self.content(s, vs[0]), self.content(s, vs[1])) if len(vs) == 2 else ("top", oper)))
            return out
        if oper == "+" and (obj is None and len(args) == 2):
            for s, vs in self.args(args, st, fr):
                out.append((s, self.fold("+", self.content(s, vs[0]), self.content(s, vs[1]))))
            return out
        if name == "setprecision" or name == "setw":
            for s, vs in self.args(args, st, fr):
                out.append((s, ("manip", name, self.content(s, vs[0]))))
            return out
        if obj is not None:
            return self.member_lib(e, c, name, oper, args, st, fr, loc)
        if name in ("atof", "atoi", "atol", "atoll", "strtod", "strtol", "strtof", "sscanf"):
            for s, vs in self.args(args, st, fr):
                self.alarm(s, "unread", loc, "%s does not report a value that cannot be read" % name) if name.startswith("ato") else self.und(s, name)
                out.append((s, ("top", name)))
            return out
        if name in ("stod", "stoi", "stol", "stoul", "stof", "stoll"):
            for s, vs in self.args(args, st, fr):
                v = ("ext", loc, {"stod": "double", "stoi": "int"}.get(name, name), self.content(s, vs[0]), 0)
                self.drop_facts(s, v)
                out.append((s, v))
            return out
        if name in ("begin", "cbegin", "end", "cend", "size", "empty", "data", "ssize") and len(args) == 1:
            for s, p in self.lv(args[0], st, fr):
                out.append((s, self.container_query(s, name, p)))
            return out
        if name in ("min", "max", "abs", "fabs") and args:
            for s, vs in self.args(args, st, fr):
                out.append((s, ("fn", name) + tuple(self.content(s, v) for v in vs)))
            return out
        known = name in ("to_string", "isspace", "__errno_location", "strerror", "numeric_limits", "swap", "find_if", "find", "distance", "max", "min", "epsilon", "infinity")
        for s, vs in self.args(args, st, fr):
            if not known:
                for v in vs:
                    if is_path(v) and v in s.streams:
                        self.und(s, "stream handed to %s" % name)
                    if is_path(v) and v[1] == "this":
                        s.maybe = s.maybe | {v}
                        self.und(s, "%s may change %s" % (name, show(v)))
            if name == "swap" and len(vs) == 2 and is_path(vs[0]) and is_path(vs[1]):
                a, b = vs
                for dst, src in ((a, b), (b, a)):
                    if dst[1] == "this":
                        self.assign(s, dst, src, loc)
            out.append((s, ("fn", name) + tuple(self.content(s, v) for v in vs)))
        return out

    def container_query(self, s, name, p):
        if name in ("begin", "cbegin"):
            return ("iter", p, ("lit", 0))
        if name in ("end", "cend"):
            return ("iter", p, ("size", p))
        if name in ("size", "ssize", "length"):
            return self.size(s, p)
        if name == "empty":
            return ("cmp", "==", self.size(s, p), ("lit", 0))
        return ("addr", p)

    def size(self, s, p):
        if is_path(p) and p in s.heap and s.heap[p][0] == "lit" and isinstance(s.heap[p][1], str):
            return ("lit", len(s.heap[p][1]))
        if is_path(p) and p in s.heap and s.heap[p][0] in ("tok", "line", "trim", "substr", "phi"):
            v = s.heap[p]
            if v[0] != "phi":
                return ("size", v)
        return ("size", p)

    def stream_member(self, e, name, oper, args, st, p, fr, loc):
        out = []
        if p not in st.streams:
            self.und(st, "unknown stream")
            return [(st, p if oper else ("top", name))]
        if name in ("fail", "good", "bad", "eof", "is_open"):
            return self.test(st, p, name, loc)
        if name == "operator bool":
            return self.test(st, p, "bool", loc)
        if name == "operator!":
            return self.test(st, p, "fail", loc)
        s0 = st.streams[p]
        if name == "rdstate":
            return [(s, ("lit", 0) if v == ("lit", False) else ("lit", 4)) for s, v in self.test(st, p, "fail", loc)]
        if name in ("read", "write"):
            for s, vs in self.args(args, st, fr):
                ptr, n = vs[0], self.content(s, vs[1])
                q = s.streams[p]
                if name == "read":
                    self.used(s, n, loc, "the number of bytes read")
                    self.on_size(s, ptr[1] if ptr[0] == "addr" else None, n, loc, "read")
                    t = ptr[1] if ptr[0] == "addr" else None
                    if t is None:
                        self.und(s, "read into unknown storage")
                        out.append((s, p))
                        continue
                    val = ("ext", loc, "raw", q.content, q.n)
                    self.drop_facts(s, val)
                    s.streams[p] = q.put(status="unk" if q.status in ("clean", "unk") else q.status, pending=q.pending | {(t, loc)}, n=q.n + 1 if isinstance(q.n, int) and q.n < 40 else "many")
                    s.emit("read", p, ptr, n, loc, val)
                    self.invalidate(s, t)
                    s.heap[t] = val
                    if t[1] == "this":
                        whole = not any(x[0] in ("e", "c") for x in t[2:])
                        if whole:
                            s.killed = s.killed | {t}
                else:
                    s.emit("write", p, ptr, n, loc, self.content(s, ptr[1]) if ptr[0] == "addr" else None)
                    s.streams[p] = q.put(status="unk" if q.status == "clean" else q.status, unflushed=True)
                out.append((s, p))
            return out
        if name in ("flush",):
            st.streams[p] = s0.put(status="unk" if s0.status == "clean" else s0.status, unflushed=False)
            return [(st, p)]
        if name in ("put",):
            for s, vs in self.args(args, st, fr):
                self.output(s, p, vs[0] if vs[0][0] != "lit" else ("lit", chr(vs[0][1])), "char", loc)
                out.append((s, p))
            return out
        if name == "open":
            for s, vs in self.args(args, st, fr):
                s.streams[p] = s.streams[p].put(status="unk", dirn="file!")
                out.append((s, ("none",)))
            return out
        if name == "close":
            st.streams[p] = s0.put(status="unk" if s0.status == "clean" else s0.status, unflushed=False)
            return [(st, ("none",))]
        if name == "precision":
            for s, vs in self.args(args, st, fr):
                if vs:
                    s.streams[p] = s.streams[p].put(prec=vs[0][1] if vs[0][0] == "lit" else "?")
                out.append((s, ("val", p + (("f", "precision"),))))
            return out
        if name == "unsetf":
            st.streams[p] = s0.put(ff="default")
            return [(st, ("none",))]
        if name == "setf":
            for s, vs in self.args(args, st, fr):
                s.streams[p] = s.streams[p].put(ff="?")
                out.append((s, ("top", "setf")))
            return out
        if name == "str":
            if args:
                for s, vs in self.args(args, st, fr):
                    s.streams[p] = s.streams[p].put(content=self.content(s, vs[0]), n=0)
                    out.append((s, ("none",)))
                return out
            return [(st, ("strof", p))]
        if name == "clear":
            if s0.status != "clean":
                if s0.pending:
                    for t, l in sorted(s0.pending, key=repr):
                        self.alarm(st, "unread", loc, "the stream's failure is cleared before it is known that %s was read" % show(t))
                if s0.unflushed or s0.dirn in ("param", "file", "file!"):
                    st.streams[p] = s0.put(status="lost", pending=frozenset())
                    return [(st, ("none",))]
            st.streams[p] = s0.put(status="clean", pending=frozenset())
            return [(st, ("none",))]
        if name in ("tellg", "tellp", "gcount", "flags", "exceptions", "rdbuf", "tie", "width", "fill", "peek", "ignore", "seekg", "imbue", "getloc"):
            if name in ("exceptions", "rdbuf", "seekg", "imbue"):
                self.und(st, "stream." + name)
            return [(st, ("top", name))]
        self.und(st, "stream." + name)
        return [(st, ("top", name))]

    def member_lib(self, e, c, name, oper, args, st, fr, loc):
        out = []
        obj = e["obj"]
        t = obj["t"]
        for s, o in (self.ev(obj, st, fr) if e.get("arrow") else self.lv(obj, st, fr)):
            if o == ("throw",):
                out.append((s, o))
                continue
            if o and o[0] == "addr":
                o = o[1]
            for s2, vs in self.args(args, s, fr):
                out.append((s2, self.member_one(e, name, oper, vs, s2, o, t, loc)))
        return out

    def member_one(self, e, name, oper, vs, s, o, t, loc):
        cv = [self.content(s, v) for v in vs]
        isstr = "string" in t and "vector" not in t
        if not is_path(o):
            return ("top", name)
        res = None
        if name in ("x", "y", "z", "w") and not vs:
            res = o + (("c", COMP[name]),)
        elif oper in ("[]", "()") and len(vs) == 1 or name in ("at", "coeff", "coeffRef") and len(vs) == 1:
            if isstr:
                return ("front", self.content(s, o)) if cv[0] == ("lit", 0) else ("chr", self.content(s, o), cv[0])
            vec = "Matrix" in t or "Vec" in t
            self.used(s, cv[0], loc, "an element index")
            res = o + ((("c", cv[0][1]) if vec and cv[0][0] == "lit" else ("e", cv[0])),)
        elif name in ("front", "back") and not vs:
            if isstr:
                return ("front", self.content(s, o)) if name == "front" else ("last", self.content(s, o))
            res = o + (("e", ("lit", 0) if name == "front" else ("bin", "-", ("size", o), ("lit", 1))),)
        if res is not None:
            return res if self.classy(e["t"]) else (self.content(s, res) if not self.want_lv(e) else res)
        if name in ("begin", "cbegin", "end", "cend", "size", "length", "empty", "data", "ssize", "c_str"):
            if name == "c_str":
                return self.content(s, o)
            return self.container_query(s, name, o)
        if isstr:
            v = self.content(s, o)
            if name == "find":
                return ("find", v, cv[0])
            if name == "substr":
                return ("substr", v) + tuple(cv)
            if name == "compare":
                return ("fn", "compare", v) + tuple(cv)
            if name in ("starts_with",):
                return ("cmp", "==", ("front", v), cv[0])
            if name in ("clear",):
                self.assign(s, o, ("lit", ""), loc, event=False)
                return ("none",)
            if oper == "+=" or name in ("append", "push_back"):
                self.assign(s, o, self.fold("+", v, cv[0]), loc, event=False)
                return o
            if name in ("erase", "insert", "replace", "pop_back", "resize", "assign"):
                self.assign(s, o, ("mod", name, v), loc, event=False)
                return o
            return ("fn", name, v) + tuple(cv)
        if name in ("push_back", "emplace_back"):
            if vs:
                val = cv[0] if len(cv) == 1 else ("init", "emplace") + tuple(cv)
                if is_path(vs[0]):
                    comps = {k[len(vs[0]):]: x for k, x in s.heap.items() if under(k, vs[0]) and k != vs[0]}
                    if comps:
                        val = ("parts",) + tuple(sorted(comps.items(), key=repr))
            else:
                val = ("init",)
            s.emit("store", o, val, "push", loc, s.facts)
            self.modify(s, o, "append", loc)
            return ("none",)
        if name in ("resize", "reserve"):
            self.used(s, cv[0], loc, "a container's size")
            self.on_size(s, o, cv[0], loc, name)
            if name == "resize":
                self.modify(s, o, "resize", loc)
                s.emit("resize", o, cv[0], loc)
            return ("none",)
        if name in ("clear", "assign"):
            if name == "assign" and cv:
                self.used(s, cv[0], loc, "a container's size")
                self.on_size(s, o, cv[0], loc, "resize")
            self.modify(s, o, name, loc)
            s.emit("kill", o)
            return ("none",)
        if name in ("insert", "erase", "pop_back", "swap"):
            if name == "swap" and vs and is_path(vs[0]):
                self.assign(s, o, vs[0], loc)
                return ("none",)
            self.modify(s, o, name, loc)
            s.emit("manip", name, loc)
            self.und(s, "container operation %s" % name)
            return ("top", name)
        if name.startswith("operator ") or oper in ("*", "->"):
            v = self.content(s, o)
            if v[0] == "iter" and oper in ("*", "->"):
                return v[1] + (("e", v[2]),)
            return v
        if oper in ("++", "--"):
            v = self.content(s, o)
            if v[0] == "iter":
                self.assign(s, o, ("iter", v[1], self.fold("+" if oper == "++" else "-", v[2], ("lit", 1))), loc, event=False)
            return o
        return ("fn", name, self.content(s, o)) + tuple(cv)

    def want_lv(self, e):
        if id(e) in self.lvset:
            self.lvset.discard(id(e))
            return True
        return False

    # ---- statements
    def stmt(self, n, states, fr):
        o = Out()
        if n is None:
            o.normal = states
            return o
        k = n["k"]
        if k == "block":
            cur = states
            declared = []
            for b in n["body"]:
                if b is not None and b["k"] == "decl":
                    declared += [v["id"] for v in b["vars"]]
                r = self.stmt(b, cur, fr)
                o.ret += r.ret; o.brk += r.brk; o.cont += r.cont; o.throw += r.throw
                cur = r.normal
                if not cur:
                    break
            o.normal = cur
            for lst in (o.normal, o.brk, o.cont):
                for s in lst:
                    self.leave(s, declared, fr)
            o.ret = [(self.leave(s, declared, fr, v), v) for s, v in o.ret]
            o.normal = dedupe_states(o.normal)
            return o
        if k == "expr":
            for s in states:
                for s2, v in self.ev(n["a"], s, fr):
                    (o.throw if v == ("throw",) else o.normal).append(s2)
            o.normal = dedupe_states(o.normal)
            return o
        if k == "decl":
            cur = states
            for v in n["vars"]:
                nxt = []
                for s in cur:
                    for s2, bad in self.declare(v, s, fr):
                        if bad:
                            o.throw.append(s2)
                        else:
                            nxt.append(s2)
                cur = nxt
            o.normal = dedupe_states(cur)
            return o
        if k == "return":
            for s in states:
                if n.get("a") is None:
                    o.ret.append((s, None))
                    continue
                ref = fr.fn["rtype"].rstrip().endswith("&")
                for s2, v in (self.lv(n["a"], s, fr) if ref else self.ev(n["a"], s, fr)):
                    if v == ("throw",):
                        o.throw.append(s2)
                    else:
                        if not ref and is_path(v):
                            if v in s2.streams or v[1] == "this":
                                pass
                            else:
                                v = self.snap(s2, v)
                        o.ret.append((s2, v))
            return o
        if k == "if":
            cur = states
            if n.get("init"):
                r = self.stmt(n["init"], cur, fr)
                o.throw += r.throw
                cur = r.normal
            if n.get("var"):
                cur = [s2 for s in cur for s2, b in self.declare(n["var"], s, fr)]
            T_, F_ = [], []
            for s in cur:
                for s2, b in self.cond(n.get("c"), s, fr):
                    if b == ("throw",):
                        o.throw.append(s2)
                    else:
                        (T_ if b else F_).append(s2)
            for lst, br in ((T_, n.get("a")), (F_, n.get("b"))):
                if not lst:
                    continue
                r = self.stmt(br, dedupe_states(lst), fr)
                o.normal += r.normal; o.ret += r.ret; o.brk += r.brk; o.cont += r.cont; o.throw += r.throw
            o.normal = dedupe_states(o.normal)
            return o
        if k in ("for", "while", "do", "rangefor"):
            return self.loop(n, states, fr)
        if k == "break":
            o.brk = states
            return o
        if k == "continue":
            o.cont = states
            return o
        if k == "try":
            r = self.stmt(n["body"], states, fr)
            o.normal, o.ret, o.brk, o.cont = r.normal, r.ret, r.brk, r.cont
            if r.throw:
                for h in n["handlers"]:
                    ent = []
                    for s in r.throw:
                        s = s.copy()
                        s.caught = True
                        ent.append(s)
                    q = self.stmt(h.get("body"), dedupe_states(ent), fr)
                    o.normal += q.normal; o.ret += q.ret; o.brk += q.brk; o.cont += q.cont; o.throw += q.throw
            o.throw += r.throw
            return o
        if k == "null":
            o.normal = states
            return o
        if k == "switch":
            for s in states:
                self.und(s, "switch")
            raise TooHard("switch statement")
        raise TooHard("statement " + k)

    def snap(self, st, p):
        """by-value copy of a local object that goes out of scope"""
        v = self.content(st, p)
        sub = {k[len(p):]: x for k, x in st.heap.items() if under(k, p) and k != p}
        if sub:
            q = P(("v", "ret", p[1]))
            for k in [k for k in st.heap if under(k, q)]:
                del st.heap[k]
            st.heap[q] = v
            for k, x in sub.items():
                st.heap[q + k] = x
            st.emit("move", p, q)
            return q
        if v[0] in ("obj", "mod", "val"):
            st.emit("move", p, P(("v", "ret", p[1])))
            q = P(("v", "ret", p[1]))
            st.heap[q] = v
            return q
        return v

    def leave(self, s, ids, fr, keepv=None):
        for i in ids:
            p = fr.vars.get(i)
            if p is None or p in s.alias:
                continue
            q = s.streams.get(p)
            if q is not None and p[1][0] == "v" and p[1][1] == fr.fid:
                if q.status != "clean" and q.pending:
                    for t, l in sorted(q.pending, key=repr):
                        self.alarm(s, "unread", l, "%s is kept although nothing shows that it was read" % show(t))
                if q.dirn in ("local",):
                    del s.streams[p]
        return s

    def declare(self, v, st, fr):
        path = P(("v", fr.fid, v["id"], v["name"]))
        fr.vars[v["id"]] = path
        st.alias.pop(path, None)
        if v.get("bindings"):
            for b in v["bindings"]:
                fr.vars[b["id"]] = path + (("f", b["name"]),)
        init = v.get("init")
        t = v["t"]
        for k in [k for k in st.heap if under(k, path)]:
            del st.heap[k]
        if init is None:
            return [(st, False)]
        if v.get("ref"):
            out = []
            for s, p in self.lv(init, st, fr):
                if p == ("throw",):
                    out.append((s, True))
                    continue
                if p and p[0] == "addr":
                    p = p[1]
                s.alias[path] = s.alias.get(p, p)
                out.append((s, False))
            return out
        out = []
        for s, val in self.ev(init, st, fr):
            if val == ("throw",):
                out.append((s, True))
                continue
            if is_path(val) and val in s.streams and ISTREAM.search(t) and not t.rstrip().endswith("*"):
                s.streams[path] = s.streams.pop(val)
                out.append((s, False))
                continue
            self.assign(s, path, val, v["l"], event=False)
            if is_path(val) and val[1] != "this" or is_path(val):
                s.emit("move", val, path)
            out.append((s, False))
        return out

    # ---- loops
    def loop(self, n, states, fr):
        o = Out()
        cur = states
        if n.get("init"):
            r = self.stmt(n["init"], cur, fr)
            o.throw += r.throw
            cur = r.normal
        lid = (n["l"], n["k"], hash((fr.fid,)) & 0xffffff)
        res_exit = []
        for s in cur:
            if not self.unroll(n, s, fr, o, res_exit):
                self.one_loop(n, s, fr, lid, o, res_exit)
        o.normal = dedupe_states(res_exit)
        return o

    def unroll(self, n, s, fr, o, res_exit):
        """a for loop whose condition is decided by literals (for k < 4) is executed as written"""
        if n["k"] != "for" or n.get("inc") is None or n.get("c") is None or n.get("var"):
            return False
        for quiet in (1, 0):
            self.quiet += quiet
            try:
                oo, cur, ex, full = Out(), [s.copy()], [], False
                for it in range(9):
                    nx = []
                    for c in cur:
                        r = self.cond(n["c"], c.copy(), fr)
                        if len(r) != 1 or r[0][1] == ("throw",) or r[0][0].facts != c.facts:
                            return False
                        (nx if r[0][1] else ex).append(r[0][0])
                    if not nx:
                        full = True
                        break
                    r = self.stmt(n["body"], dedupe_states(nx), fr)
                    oo.ret += r.ret; oo.throw += r.throw; ex += r.brk
                    cur = dedupe_states([s2 for x in r.normal + r.cont for s2, v in self.ev(n["inc"], x, fr)])
                if not full or not it:
                    return False
            finally:
                self.quiet -= quiet
        res_exit += ex
        o.ret += oo.ret
        o.throw += oo.throw
        return True

    def one_loop(self, n, s, fr, lid, o, res_exit):
        entry_log = s.log
        base = s.copy()
        base.log = ()
        rng = None
        if n["k"] == "rangefor":
            r = self.lv(n["range"], base, fr)
            if len(r) != 1:
                raise TooHard("range with branches")
            base, rng = r[0]
        heads = {self.sig(base): base}
        phis = {}
        if rng is not None:
            phis = {"range": rng}
        for it in range(12):
            self.quiet += 1
            try:
                back, _, _ = self.body(n, list(heads.values()), fr, lid, rng)
            finally:
                self.quiet -= 1
            changed = False
            for b, _ in back:
                b = b.copy()
                b.log = ()
                g = self.sig(b)
                if g not in heads:
                    if len(heads) > 10:
                        g = next(iter(heads))
                    else:
                        # join with the entry so that only stable values remain
                        j = self.join(base, b, lid, phis, streams=b)
                        heads[g] = j
                        changed = True
                        continue
                j = self.join(heads[g], b, lid, phis)
                if j.ident() != heads[g].ident():
                    heads[g] = j
                    changed = True
            if not changed:
                break
        else:
            raise TooHard("loop does not stabilise")
        back, exits, oo = self.body(n, [h.copy() for h in heads.values()], fr, lid, rng)
        if n.get("c") is not None and n["k"] != "do":
            for h in heads.values():
                for (kind, sval) in self.cond_values(n["c"], h.copy(), fr):
                    self.used(h, sval, n["l"], "the number of iterations")
        alts = []
        for b, ef in back:
            a = (b.log, b.facts - base.facts, ef)
            if a not in alts:
                alts.append(a)
        steps = {}
        for key, ph in list(phis.items()):
            if key == "range":
                continue
            nx = set()
            for b, _ in back:
                nx.add(b.heap.get(key))
            steps[ph] = (base.heap.get(key), frozenset(nx))
        info = ("loop", n["l"], n["k"], phis.get("range"), tuple(sorted(steps.items(), key=repr)), tuple(alts))
        pre = entry_log + ((info,) if alts and any(a[0] for a in alts) else ())
        for x in exits:
            x.log = pre + x.log
            res_exit.append(x)
        for x in oo.brk:
            x.log = pre + x.log
            res_exit.append(x)
        for x, v in oo.ret:
            x.log = pre + x.log
            o.ret.append((x, v))
        o.throw += oo.throw

    def cond_values(self, e, st, fr):
        out = []
        if e["k"] == "bin" and e["op"] in ("<", "<=", ">", ">=", "!="):
            for x in (e["a"], e["b"]):
                if not any(t in ("call",) and False for t in ()):
                    try:
                        self.quiet += 1
                        for s, v in self.ev(x, st.copy(), fr):
                            out.append(("c", self.content(s, v)))
                    finally:
                        self.quiet -= 1
        return out

    def sig(self, s):
        return (tuple(sorted(((p, q.status, q.pending, q.unflushed, q.prec, q.ff) for p, q in s.streams.items()), key=repr)), s.killed, s.maybe, s.caught,
                tuple(sorted(((k, v) for k, v in s.heap.items() if v[0] == "lit" and isinstance(v[1], bool)), key=repr)))

    def join(self, a, b, lid, phis, streams=None):
        r = (streams or a).copy()
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x == y:
                heap[k] = x
            elif x is None or y is None:
                if streams is not None and x is None:
                    continue
                if x is not None and x[0] == "phi" and x[1] == lid:
                    heap[k] = x
                continue
            else:
                if not (x and x[0] == "phi" and x[1] == lid):
                    phis[k] = ("phi", lid, k)
                    heap[k] = ("phi", lid, k)
                else:
                    heap[k] = x
        if streams is not None:
            for k, v in streams.heap.items():
                if v[0] == "lit" and isinstance(v[1], bool) and k in heap:
                    heap[k] = v
        r.heap = heap
        r.facts = a.facts & b.facts
        bad = [("phi", lid, k) for k in heap if heap[k] == ("phi", lid, k)]
        r.facts = frozenset(f for f in r.facts if not mentions(f, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "phi" and x[1] == lid))
        r.undet = a.undet | b.undet
        r.caught = a.caught or b.caught
        r.streams = {}
        src = streams or a
        for p, q in src.streams.items():
            q2 = (b if src is a else a).streams.get(p)
            if q2 is None:
                continue
            if q2.n != q.n:
                q = q.put(n="many")
            r.streams[p] = q
        r.log = ()
        return r

    def body(self, n, heads, fr, lid, rng):
        """One pass: (back-edge states with entry facts, exit states, other outcomes)"""
        oo = Out()
        back, exits = [], []
        k = n["k"]
        ins = []
        for h in heads:
            h = h.copy()
            if k == "do":
                ins.append(h)
            elif k == "rangefor":
                x = h.copy()
                exits.append(x)
                v = n["var"]
                path = P(("v", fr.fid, v["id"], v["name"]))
                fr.vars[v["id"]] = path
                el = rng + (("e", ("iter", lid)),) if is_path(rng) else P(("x", "elem"))
                for kk in [kk for kk in h.heap if under(kk, el)]:
                    del h.heap[kk]
                if v.get("ref"):
                    h.alias[path] = el
                else:
                    self.assign(h, path, el if self.classy(v["t"]) else self.content(h, el), n["l"], event=False)
                    if v.get("bindings"):
                        pass
                if v.get("bindings"):
                    for b in v["bindings"]:
                        fr.vars[b["id"]] = el + (("f", b["name"]),)
                ins.append(h)
            else:
                if n.get("var"):
                    hs = [s2 for s2, b in self.declare(n["var"], h, fr)]
                else:
                    hs = [h]
                for hh in hs:
                    for s2, b in self.cond(n.get("c"), hh, fr):
                        if b == ("throw",):
                            oo.throw.append(s2)
                        elif b:
                            ins.append(s2)
                        else:
                            exits.append(s2)
        r = self.stmt(n["body"], dedupe_states(ins), fr)
        oo.ret += r.ret; oo.throw += r.throw; oo.brk += r.brk
        nxt = r.normal + r.cont
        if k == "for" and n.get("inc") is not None:
            q = []
            for s in nxt:
                for s2, v in self.ev(n["inc"], s, fr):
                    q.append(s2)
            nxt = q
        if k == "do":
            q = []
            for s in nxt:
                for s2, b in self.cond(n["c"], s, fr):
                    (q if b else exits).append(s2)
            nxt = q
        if k == "rangefor" or k == "for" or k == "while":
            v = n.get("var")
            if v:
                for s in nxt:
                    self.leave(s, [v["id"]], fr)
        back = [(s, None) for s in dedupe_states(nxt)]
        return back, exits, oo


def dedupe_states(lst):
    if len(lst) <= 1:
        return lst
    seen, out = set(), []
    for s in lst:
        i = s.ident()
        if i not in seen:
            seen.add(i)
            out.append(s)
    if len(out) > 600:
        raise TooHard("too many abstract states")
    return out


def dedupe(lst):
    if len(lst) <= 1:
        return lst
    seen, out = set(), []
    for s, v in lst:
        i = (s.ident(), v)
        if i not in seen:
            seen.add(i)
            out.append((s, v))
    if len(out) > 600:
        raise TooHard("too many abstract states")
    return out
