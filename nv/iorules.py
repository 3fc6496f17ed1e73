"""Rules about saving and loading, decided on the abstract states of nv/iostate.py."""
import re
from .iostate import *
from .frontend import AnalysisBroken

TARGETS = ["libnurbs::Curve", "libnurbs::Surface"]


def functions(ctx, cls, name):
    out = [f for k, f in sorted(ctx.prog["functions"].items()) if f["qual"] == cls + "::" + name]
    return out


def need(ctx, cls, name):
    fs = functions(ctx, cls, name)
    if not fs:
        raise AnalysisBroken("%s::%s is gone" % (cls, name))
    return fs


def analyse(ctx, fn, io_cls=IO):
    seen = []

    def rec(kind, loc, text):
        if (kind, loc, text) not in seen:
            seen.append((kind, loc, text))
    io = io_cls(ctx.prog, rec)
    try:
        fin, thr = io.run(fn)
    except TooHard as ex:
        ctx.add("open", "the function can be analysed", fn["l"], "%s: %s" % (fn["qual"], ex))
        return None
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as ex:
        ctx.add("open", "the function can be analysed", fn["l"], "%s: %s %s" % (fn["qual"], type(ex).__name__, ex))
        return None
    for f in io.fn_seen.values():
        ctx.saw(f)
    ctx.nobl += len(fin) + len(thr)
    return fin, thr, seen, io


def short(fn):
    return "%s(%s)" % (fn["qual"], ", ".join(re.sub(r"\bconst |std::| &", "", p["t"]) for p in fn["params"]))


def undet(s):
    return sorted(s.undet)


def outer_streams(s):
    return [(p, q) for p, q in s.streams.items() if q.dirn in ("param", "file", "file!")]


# ---- C03 -----------------------------------------------------------------------------------------------------

def g_save(ctx):
    for cls in TARGETS:
        for fn in need(ctx, cls, "SaveToFile"):
            r = analyse(ctx, fn)
            if r is None:
                continue
            fin, thr, seen, io = r
            rule = "a normal return of %s means that all output was flushed and the stream did not fail" % short(fn)
            bad, opn = [], []
            if not fin:
                opn.append("no normal return found")
            wrote = False
            for s, v in fin:
                mode = path_of(s)
                for p, q in outer_streams(s):
                    wrote = True
                    what = None
                    if q.status == "lost":
                        what = "failures of %s are cleared before they are tested" % show(p)
                    elif q.status == "fail" or q.status == "eof":
                        what = "%s has failed" % show(p)
                    elif q.unflushed:
                        what = "output to %s is not flushed" % show(p)
                    elif q.status == "unk":
                        what = "nothing tests %s for failure after the last operation" % show(p)
                    if what and s.caught:
                        what += " (an exception was swallowed)"
                    if what:
                        (opn if undet(s) else bad).append("%s%s" % (what, mode))
                if undet(s) and not bad:
                    opn.append("; ".join(undet(s)))
            for b in sorted(set(bad)):
                ctx.add("refuted", rule, fn["l"], b)
            if not bad:
                if not wrote:
                    opn.append("no stream found")
                ctx.add("open" if opn else "proved", rule, fn["l"], "; ".join(sorted(set(opn))) or "%d return paths, %d exceptional paths" % (len(fin), len(thr)))


def path_of(s):
    t = [("%s is %s" % (show(a[1] if a[0] in ("val", "phi") else a), b)) for a, b in s.facts if a[0] in ("val", "phi")]
    return " (on the path where %s)" % ", ".join(sorted(t)) if t else ""


# ---- C05 -----------------------------------------------------------------------------------------------------

def leaves_of(prog, t, base):
    r = prog["records"].get(t)
    if r is None or not r["fields"]:
        return [base]
    out = []
    for f in r["fields"]:
        out += leaves_of(prog, f["t"], base + (("f", f["name"]),))
    return out


def g_fresh(ctx):
    for cls in TARGETS:
        for fn in need(ctx, cls, "LoadFromFile"):
            r = analyse(ctx, fn)
            if r is None:
                continue
            fin, thr, seen, io = r
            rule = "after %s returns, nothing of the previous content is left" % short(fn)
            bad, opn = set(), set()
            for k, loc, text in seen:
                if k == "old":
                    bad.add(text)
            leaves = leaves_of(ctx.prog, cls, THIS)
            for s, v in fin:
                for l in leaves:
                    if any(under(l, k) for k in s.killed):
                        continue
                    if any(under(l, k) or under(k, l) for k in s.maybe):
                        opn.add("%s is rewritten in place" % show(l))
                    elif undet(s):
                        opn.add("; ".join(undet(s)))
                    else:
                        bad.add("%s keeps its previous content on a path that returns normally" % show(l))
            for b in sorted(bad):
                ctx.add("refuted", rule, fn["l"], b)
            if not bad:
                ctx.add("open" if opn or not fin else "proved", rule, fn["l"], "; ".join(sorted(opn)) or "%d return paths, %d fields" % (len(fin), len(leaves)))
            rule = "%s returns the object it was called on" % short(fn)
            if fn["rtype"].rstrip().endswith("&"):
                other = [v for s, v in fin if v != THIS]
                if other:
                    known = all(is_path(v) and v[1] != "this" and v[1][0] in ("v", "g") for v in other)
                    ctx.add("refuted" if known else "open", rule, fn["l"], "returns %s" % show(other[0]))
                else:
                    ctx.add("proved", rule, fn["l"], "%d return paths" % len(fin))


# ---- C02 -----------------------------------------------------------------------------------------------------

def poly(v):
    """integer value -> {monomial: coefficient}"""
    if v[0] == "lit" and isinstance(v[1], int) and not isinstance(v[1], bool):
        return {(): v[1]} if v[1] else {}
    if v[0] == "bin" and v[1] in ("+", "-"):
        a, b = poly(v[2]), poly(v[3])
        sg = 1 if v[1] == "+" else -1
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + sg * c
        return {m: c for m, c in r.items() if c}
    if v[0] == "bin" and v[1] == "*":
        a, b = poly(v[2]), poly(v[3])
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}
    if v[0] in ("old", "val"):
        return {(("val", v[1]),): 1}
    return {(v,): 1}


def psub(a, b):
    r = dict(poly(a))
    for m, c in poly(b).items():
        r[m] = r.get(m, 0) - c
    return {m: c for m, c in r.items() if c}


def exts(v, out=None):
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[0] == "ext":
            if v not in out:
                out.append(v)
        else:
            for x in v:
                exts(x, out)
    return out


class LoadIO(IO):
    """adds the rules about counts and dimensions"""

    def on_size(self, st, p, v, loc, what):
        if what == "reserve":
            return
        es = exts(v)
        if not es:
            return
        for x in es:
            lo, hi = self.range(st, x)
            dims = len(es) > 1
            if dims and (lo is None or lo < 1):
                self.alarm(st, "count", loc, "a grid dimension read from the file decides how much is stored although it may be %s" % ("negative or zero" if lo is None else "zero"))
            elif not dims and (lo is None or lo < 0):
                self.alarm(st, "count", loc, "a count read from the file decides how much is stored although it may be negative")
        if what == "resize" and p is not None and p[1] == "this" and any(x[0] == "f" and x[1] == "Values" for x in p[2:]) and len(es) > 1:
            lines = [x for x in es if is_line_elem(x[3])]
            if lines:
                self.match_count(st, es, v, loc)

    def match_count(self, st, es, v, loc):
        """text: the number of lines must equal the announced number of points"""
        cont = line_elem(es[0][3])
        L = cont[:-1]
        want = ("size", L)
        rel, exact, le, ge = [], False, False, False
        for (f, pol) in st.facts:
            if f[0] not in ("eq", "lt"):
                continue
            if mentions(f, lambda x: x == want) and any(mentions(f, lambda x: x == e) for e in es):
                rel.append(f)
                d = psub(f[1], f[2])
                tgt = psub(("bin", "-", ("size", L), ("lit", 1)), v)
                neg = {m: -c for m, c in tgt.items()}
                if f[0] == "eq" and pol and d in (tgt, neg):
                    exact = True
                if f[0] == "lt" and not pol and d == tgt:
                    ge = True
                if f[0] == "lt" and not pol and d == neg:
                    le = True
                if f[0] == "eq" and pol and d not in (tgt, neg):
                    dd = dict(d)
                    for m, c in tgt.items():
                        dd[m] = dd.get(m, 0) - c
                    dn = dict(d)
                    for m, c in neg.items():
                        dn[m] = dn.get(m, 0) - c
                    if all(m == () for m, c in dd.items() if c) or all(m == () for m, c in dn.items() if c):
                        self.alarm(st, "count", loc, "the number of control point lines is compared with the grid dimensions off by a constant")
                        return
        if exact or (le and ge):
            return
        if not rel or le or ge:
            self.alarm(st, "count", loc, "the number of control points in the file is not required to equal the announced grid dimensions" if not rel else
                       "the number of control points in the file is compared with the announced grid dimensions on one side only")
        else:
            self.und(st, "comparison of the number of points with the grid dimensions not understood")

    def on_mul(self, st, a, b, loc):
        if a[0] != "ext" or b[0] != "ext" or a == b:
            return
        both = [(f, pol) for f, pol in st.facts if mentions(f, lambda x: x == a) and mentions(f, lambda x: x == b) and not mentions(f, lambda x: isinstance(x, tuple) and x and x[0] == "size")]
        for f, pol in both:
            if f[0] == "lt" and not pol:
                # not (MAX / b < a)
                for x, y in ((a, b), (b, a)):
                    if f[2] == x and f[1][0] == "bin" and f[1][1] == "/" and f[1][2] == ("lit", 2147483647) and f[1][3] == y:
                        return
        ra, rb = self.range(st, a), self.range(st, b)
        if ra[1] is not None and rb[1] is not None and abs(ra[1] * rb[1]) < 2 ** 31 and ra[0] is not None and rb[0] is not None:
            return
        if both:
            self.und(st, "guard of the dimension product not understood")
            return
        self.alarm(st, "count", loc, "the product of the two grid dimensions can overflow")


def is_line_elem(v):
    return line_elem(v) is not None


def line_elem(v):
    while v[0] in ("trim", "line"):
        v = v[1]
    if v[0] in ("val", "old") and is_path(v[1]) and v[1][-1][0] == "e":
        return v[1]
    return None


def walk(log, facts=frozenset()):
    """all (event, enclosing loops) of a log"""
    for e in log:
        if e[0] == "loop":
            for a in e[5]:
                yield from ((x, (e,) + ls) for x, ls in walk(a[0]))
        else:
            yield e, ()


def alts(log):
    for e in log:
        if e[0] == "loop":
            for a in e[5]:
                yield e, a
                yield from alts(a[0])


def g_load(ctx):
    for cls in TARGETS:
        keys = writer_keys(ctx, cls)
        for fn in need(ctx, cls, "LoadFromFile"):
            r = analyse(ctx, fn, LoadIO)
            if r is None:
                continue
            fin, thr, seen, io = r
            opn = set()
            for s, v in fin:
                opn.update(undet(s))
            # every value was read
            rule = "%s: every value kept or used was read successfully" % short(fn)
            bad = {"%s (%s)" % (t, l) for k, l, t in seen if k == "unread"}
            for s, v in fin:
                for p, q in outer_streams(s):
                    if q.status in ("unk",) and q.pending:
                        bad.add("%s kept although %s is not tested after it was read" % (", ".join(sorted(show(t) for t, l in q.pending)), show(p)))
                    elif q.status == "fail":
                        bad.add("returns normally although reading %s may have failed with an error%s" % (show(p), " (an exception was swallowed)" if s.caught else ""))
                    elif q.status == "lost":
                        bad.add("the failure state of %s is cleared and forgotten" % show(p))
                if s.caught:
                    bad.add("an exception raised while loading is swallowed")
            bad |= coords(fin, opn)
            report(ctx, rule, fn, bad, opn, fin, thr)
            # counts
            rule = "%s: counts and dimensions are validated before they are used" % short(fn)
            bad = {"%s (%s)" % (t, l) for k, l, t in seen if k == "count"}
            report(ctx, rule, fn, bad, opn, fin, thr)
            # header
            rule = "%s: magic, mode and object type are checked" % short(fn)
            bad, op2 = set(), set(opn)
            for s, v in fin:
                head = {}
                other = False
                for f, pol in s.facts:
                    if not mentions(f, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == "line" and x[3] == 0):
                        continue
                    if f[0] == "eq" and pol:
                        for a, b in ((f[1], f[2]), (f[2], f[1])):
                            if a[0] == "tok" and b[0] == "lit" and a[1][0] == "line":
                                head.setdefault(a[2], set()).add(b[1])
                    elif f[0] != "eq":
                        other = True
                for i, what in ((0, "magic"), (1, "mode"), (2, "object type")):
                    if i not in head:
                        (op2 if other or any(q.dirn == "param" and q.n == 0 for p, q in outer_streams(s)) else bad).add("the %s is not checked on a path that returns normally" % what)
                t = cls.split("::")[-1].upper()
                if 2 in head and head[2] != {t}:
                    bad.add("the object type %s is accepted" % sorted(head[2]))
                if 0 in head and keys and keys["head"] and head[0] != {keys["head"][0]}:
                    bad.add("the magic %s is accepted" % sorted(head[0]))
            report(ctx, rule, fn, bad, op2, fin, thr)
            # unknown keywords
            rule = "%s: an unknown keyword is rejected" % short(fn)
            bad, n = set(), 0
            known = set(keys["keys"]) if keys else set()
            tests = [s.facts for s, v in fin]
            for s, v in fin:
                tests += [a[1] for e, a in alts(s.log)]
            for facts in tests:
                cmpd = {}
                for f, pol in facts:
                    if f[0] == "eq":
                        for a, b in ((f[1], f[2]), (f[2], f[1])):
                            if b[0] == "lit" and isinstance(b[1], str) and b[1] in known and a[0] != "lit":
                                cmpd.setdefault(a, set()).add(pol)
                for a, pols in cmpd.items():
                    n += 1
                    if True not in pols:
                        bad.add("a section whose keyword matches none of the known ones is skipped silently")
            if n == 0:
                opn.add("keyword tests not recognised")
            report(ctx, rule, fn, bad, opn, fin, thr)


def coords(fin, opn):
    """a stored point has all its coordinates from the file"""
    bad = set()
    for s, v in fin:
        for e, ls in walk(s.log):
            if e[0] == "store" and e[1][1] == "this" and any(x == ("f", "ControlPoints") for x in e[1][2:]) and (e[3] == "push" or e[1][-1][0] == "e"):
                val = e[2]
                if val[0] == "parts":
                    got = {k[0][1]: x for k, x in val[1:] if len(k) == 1 and k[0][0] == "c"}
                    miss = [c for c in range(4) if c not in got]
                    if got and miss:
                        bad.add("a control point is stored without reading its coordinate %s (%s)" % (", ".join("xyzw"[c] for c in miss), e[4]))
                    for c, x in got.items():
                        if x[0] == "lit":
                            bad.add("a control point's coordinate %s is not read but set to %s (%s)" % ("xyzw"[c], x[1], e[4]))
    return bad


def report(ctx, rule, fn, bad, opn, fin, thr):
    for b in sorted(bad):
        ctx.add("refuted", rule, fn["l"], b)
    if not bad:
        ctx.add("open" if opn or not fin else "proved", rule, fn["l"], "; ".join(sorted(opn)) or "%d return paths, %d exceptional paths" % (len(fin), len(thr)))


# ---- C04 -----------------------------------------------------------------------------------------------------

class Und(Exception):
    pass


def stream_fn(ctx, cls, name):
    fs = [f for f in functions(ctx, cls, name) if any(ISTREAM.search(p["t"]) for p in f["params"])]
    return fs[0] if fs else None


def out_items(log, main, spliced=None):
    """output events of a log as text / num / raw / loop items"""
    out = []
    for e in log:
        if e[0] == "loop":
            al = [(out_items(a[0], main), a[1]) for a in e[5]]
            if any(x for x, f in al):
                out.append(("loop", e, al))
        elif e[0] == "out":
            if e[1] != main:
                continue
            v = e[2]
            if v[0] == "strof":
                out += out_items(log[:log.index(e)], v[1])
                continue
            if v[0] == "lit":
                t = e[3].replace("const ", "")
                x = v[1]
                if t == "char" and isinstance(x, int):
                    x = chr(x)
                out.append(("text", x if isinstance(x, str) else str(x)))
            else:
                if v[0] == "fn" and v[1] == "to_string":
                    t = "int" if mentions(v, lambda x: False) else "tostring"
                    out.append(("num", v[2], "tostring", None, None, e[6]))
                else:
                    out.append(("num", v, e[3].replace("const ", "").replace("&", "").strip(), e[4], e[5], e[6]))
        elif e[0] == "write":
            if e[1] != main:
                continue
            out.append(("raw", e[2], e[3], e[5], e[4]))
        elif e[0] in ("manip", "width"):
            raise Und("output manipulator %s" % (e[1],))
    # merge texts
    res = []
    for x in out:
        if x[0] == "text" and res and res[-1][0] == "text":
            res[-1] = ("text", res[-1][1] + x[1])
        else:
            res.append(x)
    return res


def writer(ctx, cls):
    """[(state, items)] of the stream overload of SaveToFile"""
    fn = stream_fn(ctx, cls, "SaveToFile")
    if fn is None:
        raise Und("no stream overload of SaveToFile")
    r = analyse(ctx, fn)
    if r is None:
        raise Und("SaveToFile not analysable")
    fin = r[0]
    out = []
    for s, v in fin:
        main = [p for p, q in s.streams.items() if q.dirn == "param"]
        if len(main) != 1:
            raise Und("output stream not found")
        if s.undet:
            raise Und("; ".join(undet(s)))
        out.append((s, out_items(s.log, main[0])))
    return fn, out


def head_tokens(items):
    if not items or items[0][0] != "text" or "\n" not in items[0][1]:
        return None, items
    line, rest = items[0][1].split("\n", 1)
    return line.split(), ([("text", rest)] if rest else []) + items[1:]


def sections(items, mark="*", colon=":"):
    """[(key, items)] of a text document after the header; None if something precedes the first key"""
    secs = []
    pat = re.compile(r"(?:^|(?<=\n))[ \t]*" + re.escape(mark) + r"([^" + re.escape(colon) + r"\n]*)" + re.escape(colon))
    for x in items:
        if x[0] == "text":
            pos = 0
            t = x[1]
            start = True
            for m in pat.finditer(t):
                # a key starts a line: either after a newline or at the start of the text when the item before ended one
                before = t[pos:m.start()]
                if before:
                    if not secs:
                        if before.strip():
                            return None
                    else:
                        secs[-1][1].append(("text", before))
                secs.append((m.group(1).strip(), []))
                pos = m.end()
            rest = t[pos:]
            if rest:
                if not secs:
                    if rest.strip():
                        return None
                else:
                    secs[-1][1].append(("text", rest))
        else:
            if not secs:
                return None
            secs[-1][1].append(x)
    return secs


def writer_keys(ctx, cls):
    try:
        fn, ws = writer(ctx, cls)
        keys, head = [], None
        for s, items in ws:
            h, rest = head_tokens(items)
            head = h or head
            if any(x[0] == "raw" for x in flat(rest)):
                continue
            for k, it in sections(rest) or []:
                if k not in keys:
                    keys.append(k)
        return {"keys": keys, "head": head}
    except Und:
        return None


def flat(items):
    for x in items:
        if x[0] == "loop":
            for it, f in x[2]:
                yield from flat(it)
        else:
            yield x


def numpath(v):
    """path whose stored value is written, or None"""
    if v[0] in ("old", "val"):
        return v[1]
    return None


# -- order in which a (nest of) loop(s) visits a container

def visit(loops, elem, facts_of):
    """loops: [(loop event, facts)] outermost first; elem: path of the element.  Returns 'linear', or ('bad', why), or raises Und."""
    i = next((n for n, s in enumerate(elem[2:], 2) if s[0] == "e"), None)
    if i is None:
        raise Und("not an element")
    C, idx = elem[:i], elem[i][1]
    if idx[0] == "iter":
        l = loops[-1][0]
        if l[3] == C and len(loops) == 1:
            return C, "linear"
        raise Und("iteration not understood")
    ivs = []
    for l, facts in loops:
        cand = [(ph, st) for ph, st in l[4] if mentions(idx, lambda x: x == ph)]
        if not cand:
            raise Und("loop variable not found")
        ph, (init, nx) = cand[0]
        nx = {x for x in nx if x is not None}
        if init is None or len(nx) != 1:
            raise Und("loop variable not understood")
        step = psub(next(iter(nx)), ph)
        if step != {(): 1}:
            raise Und("loop step")
        bound = None
        for f, pol in facts:
            if f[0] == "lt" and pol and f[1] == ph:
                bound = f[2]
            elif f[0] == "lt" and not pol and f[2] == ph:
                bound = ("bin", "+", f[1], ("lit", 1))
            elif f[0] == "eq" and not pol and ph in f[1:] and bound is None and l[2] in ("for", "while"):
                o = f[2] if f[1] == ph else f[1]
                if mentions(o, lambda x: isinstance(x, tuple) and x and x[0] == "size") and psub(o, ("size", C)) == {}:
                    bound = o
        if bound is None:
            raise Und("loop bound")
        ivs.append((ph, init, bound))
    return C, (idx, ivs)


def grid_fields(C):
    base = C[:-1]
    return ("val", base + (("f", "UCount"),)), ("val", base + (("f", "VCount"),))


def resolve_dims(v, C, dims):
    """dimension values read in the same run stand for the fields they were stored in"""
    def sub(x):
        if isinstance(x, tuple):
            if x in dims:
                return dims[x]
            if x and x[0] in ("old",):
                return ("val",) + x[1:]
            return tuple(sub(y) for y in x)
        return x
    return sub(v)


def judge_visit(C, how, first=0, dims=None, counts=None):
    """None if the container is visited completely and in storage order starting with index `first`; else a reason"""
    if how == "linear":
        return None
    idx, ivs = how
    U, V = grid_fields(C)
    dims = dims or {}
    idx = resolve_dims(idx, C, dims)
    ivs = [(resolve_dims(p, C, dims), resolve_dims(i, C, dims), resolve_dims(b, C, dims)) for p, i, b in ivs]
    if len(ivs) == 1:
        ph, init, bound = ivs[0]
        off = psub(idx, ph)
        if any(m != () for m in off):
            raise Und("element index")
        start = {m: c for m, c in psub(("bin", "+", init, ("lit", 0)), ("lit", 0)).items()}
        lo = dict(start)
        lo[()] = lo.get((), 0) + off.get((), 0)
        lo = {m: c for m, c in lo.items() if c}
        if lo:
            return "the first element visited is not element 0" if all(m == () for m in lo) else None
        full = [("size", C), ("bin", "*", U, V)] + list((counts or {}).get(C, []))
        for f in full:
            f = resolve_dims(f, C, dims)
            d = psub(bound, f)
            if off.get((), 0):
                d[()] = d.get((), 0) + off[()]
                d = {m: c for m, c in d.items() if c}
            if not d:
                return None
        for f in full:
            f = resolve_dims(f, C, dims)
            d = psub(bound, f)
            if off.get((), 0):
                d[()] = d.get((), 0) + off[()]
                d = {m: c for m, c in d.items() if c}
            if all(m == () for m in d):
                return "the last %d elements are left out" % (-d[()]) if d[()] < 0 else "elements past the end are visited"
        raise Und("loop bound %s" % show(bound))
    if len(ivs) == 2:
        (p1, i1, b1), (p2, i2, b2) = ivs
        lin = lambda outer, inner: psub(idx, ("bin", "+", ("bin", "*", outer, U), inner)) == {}
        if i1 != ("lit", 0) or i2 != ("lit", 0):
            raise Und("nested loop start")
        if lin(p1, p2):
            if psub(b1, V) == {} and psub(b2, U) == {}:
                return None
            if psub(b1, U) == {} and psub(b2, V) == {}:
                return "the bounds of the two grid loops are exchanged"
            raise Und("nested loop bounds")
        if lin(p2, p1) and psub(b1, U) == {} and psub(b2, V) == {}:
            return "the points are visited column by column although they are stored row by row"
        raise Und("element index of a nested loop")
    raise Und("loop nest")


def fmt_ok(n, where, bad):
    v, ty, prec, ff, loc = n[1], n[2], n[3], n[4], n[5]
    if ty == "tostring":
        bad.add("%s is written with std::to_string, which keeps six digits (%s)" % (show(v), loc))
        return
    if ty == "float":
        bad.add("%s is written in single precision (%s)" % (show(v), loc))
        return
    if ty in ("double", "long double"):
        if prec is None or isinstance(prec, int) and prec < 17:
            if ff == "scientific" and prec is not None and prec >= 16:
                return
            bad.add("%s is written with %s significant digits; 17 are needed to read the same value back (%s)" % (show(v), prec if prec is not None else "the stream's default number of", loc))
        elif prec == "?":
            raise Und("output precision")
        elif ff in ("fixed", "hexfloat"):
            bad.add("%s is written in %s notation, which does not read back to the same value (%s)" % (show(v), ff, loc))
        elif ff not in ("default", "scientific"):
            if ff is None:
                return
            raise Und("floating point format")


def reader(ctx, cls):
    fn = stream_fn(ctx, cls, "LoadFromFile")
    if fn is None:
        raise Und("no stream overload of LoadFromFile")
    r = analyse(ctx, fn)
    if r is None:
        raise Und("LoadFromFile not analysable")
    return fn, r[0]


def header_facts(s):
    head = {}
    for f, pol in s.facts:
        if f[0] == "eq" and pol:
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if a[0] == "tok" and b[0] == "lit" and a[1][0] == "line" and len(a[1]) == 4 and a[1][3] == 0:
                    head[a[2]] = b[1]
    return head


def key_of(facts, keys):
    got = set()
    for f, pol in facts:
        if f[0] == "eq" and pol:
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if b[0] == "lit" and isinstance(b[1], str) and a[0] != "lit" and a[0] != "tok" and b[1] != "":
                    got.add(b[1])
    return got


def local_moves(log, dest_root):
    return None


def g_format(ctx):
    for cls in TARGETS:
        fnw = stream_fn(ctx, cls, "SaveToFile")
        if fnw is None:
            raise AnalysisBroken("%s::SaveToFile is gone" % cls)
        t = cls.split("::")[-1]
        try:
            fw, ws = writer(ctx, cls)
            fr, fin = reader(ctx, cls)
            for s, v in fin:
                if s.undet:
                    raise Und("; ".join(undet(s)))
        except Und as ex:
            ctx.add("open", "%s: writer and reader can be summarised" % t, fnw["l"], str(ex))
            continue
        modes = {}
        for s, items in ws:
            h, rest = head_tokens(items)
            if h is None:
                ctx.add("open", "%s: the header line is a constant" % t, fw["l"], "")
                continue
            modes.setdefault(tuple(h), []).append(rest)
        # header
        rule = "%s: the header written is the header accepted" % t
        bad = set()
        rheads = [header_facts(s) for s, v in fin]
        for h in modes:
            if not any(all(rh.get(i) == x for i, x in enumerate(h[:3])) and len(h) == 3 for rh in rheads if rh):
                bad.add("the header '%s' that is written is not one the reader accepts" % " ".join(h))
        if len(modes) < 2:
            bad.add("text and binary files cannot be told apart by their header") if len(modes) == 1 else None
        report(ctx, rule, fw, bad, set(), ws, fin)
        for h, docs in sorted(modes.items()):
            states = [s for s, rh in zip([s for s, v in fin], rheads) if all(rh.get(i) == x for i, x in enumerate(h[:3]))]
            if not states:
                continue
            binary = any(x[0] == "raw" for d in docs for x in flat(d))
            rule = "%s, %s: what is written reads back into the same fields, in order and unchanged" % (t, "binary" if binary else "text")
            bad, opn = set(), set()
            try:
                for d in docs:
                    if binary:
                        binary_match(ctx, cls, d, states, bad)
                    else:
                        text_match(ctx, cls, d, states, bad, opn)
            except Und as ex:
                opn.add(str(ex))
            report(ctx, rule, fw, bad, opn, docs, states)


# -- binary

def bin_writer(items):
    seq = []

    def go(items, loops):
        for x in items:
            if x[0] == "raw":
                ptr, n, content, loc = x[1], x[2], x[3], x[4]
                if ptr[0] != "addr":
                    raise Und("write from unknown storage")
                p = ptr[1]
                seq.append(("item", p, n, content, loc, tuple(loops)))
            elif x[0] == "loop":
                if len(x[2]) != 1:
                    ne = [a for a in x[2] if a[0]]
                    if len(ne) != len(x[2]):
                        seq.append(("cond", x[1][1]))
                    if len(ne) != 1:
                        raise Und("binary loop with branches")
                    go(ne[0][0], loops + [(x[1], ne[0][1])])
                else:
                    go(x[2][0][0], loops + [(x[1], x[2][0][1])])
            elif x[0] in ("text", "num"):
                raise Und("formatted output in binary mode")
    go(items, [])
    return seq


def bin_reader(log):
    seq = []

    def go(log, loops):
        for e in log:
            if e[0] == "read":
                if e[2][0] != "addr":
                    raise Und("read into unknown storage")
                seq.append(("item", e[2][1], e[3], e[5], e[4], tuple(loops)))
            elif e[0] == "resize":
                seq.append(("resize", e[1], e[2], e[3]))
            elif e[0] == "loop":
                al = [a for a in e[5] if a[0]]
                if len(al) != 1:
                    raise Und("binary loop with branches")
                if len(e[5]) != 1:
                    seq.append(("cond", e[1]))
                go(al[0][0], loops + [(e, al[0][1])])
            elif e[0] == "store" and e[1][1] == "this" and len(e[1]) > 2:
                seq.append(("store", e[1], e[2], e[4]))
            elif e[0] == "move":
                seq.append(("move", e[1], e[2]))
            elif e[0] == "kill":
                seq.append(("kill", e[1]))
    go(log, [])
    return seq


def describe(seq, reading, bad):
    """normal form: list of ('field', path, bytes) | ('count', container, bytes) | ('data', container, bytes per element) | ('each', container, bytes)"""
    out = []
    counts = {}
    dims = {}
    if reading:
        for x in seq:
            if x[0] == "resize":
                counts.setdefault(x[2], x[1])
    cnt = {}
    for x in seq:
        if x[0] == "resize":
            cnt.setdefault(x[1], []).append(x[2])
    for x in seq:
        if x[0] == "item" and reading and x[1][1] == "this" and x[3] and x[3][0] == "ext":
            dims[x[3]] = ("val", x[1])
    for x in seq:
        if x[0] == "cond":
            raise Und("conditional binary section (%s)" % x[1])
        if x[0] == "store":
            if x[2][0] == "ext" or mentions(x[2], lambda y: isinstance(y, tuple) and y and y[0] == "ext"):
                # value read into a local and stored afterwards
                for i, o in enumerate(out):
                    if o[0] == "local" and x[2] == o[3]:
                        out[i] = ("field", x[1], o[2], o[4])
                        break
                else:
                    raise Und("stored value")
            continue
        if x[0] in ("move", "kill", "resize"):
            continue
        p, n, content, loc, loops = x[1:]
        if loops:
            # element by element
            i = next((k for k, s in enumerate(p[2:], 2) if s[0] == "e"), None)
            if i is None:
                raise Und("loop over something else")
            C, how = visit(list(loops), p, None)
            why = judge_visit(C, how, dims=dims if reading else None, counts=cnt)
            if why:
                bad.add("%s: %s (%s)" % (show(C), why, loc))
            if n[0] != "lit":
                raise Und("element size")
            out.append(("each", C, n[1], loc))
            continue
        if n[0] == "lit":
            if p[1] == "this":
                out.append(("field", p, n[1], loc))
            elif reading:
                if content in counts:
                    out.append(("count", counts[content], n[1], loc))
                else:
                    out.append(("local", p, n[1], content, loc))
            else:
                c = content
                while c and c[0] == "narrow":
                    c = c[2]
                if c and c[0] == "size" and is_path(c[1]):
                    out.append(("count", c[1], n[1], loc))
                elif c and c[0] in ("old", "val") and c[1][1] == "this":
                    out.append(("field", c[1], n[1], loc))
                elif c and poly(c) and all(True for m in poly(c)):
                    pc = poly(c)
                    if len(pc) == 2 and () in pc and any(m and m[0][0] == "size" for m in pc):
                        bad.add("the count written is %s (%s)" % (show(c), loc))
                        out.append(("count", [m for m in pc if m][0][0][1], n[1], loc))
                    else:
                        raise Und("written local value %s" % show(c))
                else:
                    raise Und("written local value")
        else:
            pn = poly(n)
            if len(pn) != 1:
                raise Und("block size %s" % show(n))
            (m, k), = pn.items()
            if len(m) != 1:
                raise Und("block size %s" % show(n))
            a = m[0]
            ok = a == ("size", p) or reading and (a in counts and counts[a] == p)
            if not ok:
                if a[0] == "size" and a[1] != p:
                    bad.add("%s is transferred with the size of %s (%s)" % (show(p), show(a[1]), loc))
                else:
                    raise Und("block size %s" % show(n))
            out.append(("data", p, k, loc))
    return out


def binary_match(ctx, cls, doc, states, bad):
    w = describe(bin_writer(doc), False, bad)
    need_fields = leaves_of(ctx.prog, cls, THIS)
    for l in need_fields:
        if not any(under(l, x[1]) or under(x[1], l) for x in w if x[0] in ("field", "data", "each")):
            bad.add("%s is not saved in binary mode" % show(l))
    for s in states:
        r = describe(bin_reader(s.log), True, bad)
        if any(x[0] == "local" for x in r):
            raise Und("a value read is used in a way not understood")
        for i in range(max(len(w), len(r))):
            if i >= len(w):
                bad.add("the reader expects %s, which the writer does not write (%s)" % (desc(r[i]), r[i][3]))
                break
            if i >= len(r):
                bad.add("the writer writes %s, which the reader does not read (%s)" % (desc(w[i]), w[i][3]))
                break
            if w[i][:3] != r[i][:3]:
                bad.add("the writer writes %s where the reader expects %s (%s / %s)" % (desc(w[i]), desc(r[i]), w[i][3], r[i][3]))
                break


def desc(x):
    return {"field": "%s (%s bytes)", "count": "the size of %s (%s bytes)", "data": "the elements of %s (%s bytes each)", "each": "every element of %s (%s bytes each)"}[x[0]] % (show(x[1]), x[2])


# -- text

def text_match(ctx, cls, doc, states, bad, opn):
    # what the reader takes for a keyword line
    marks, colons = set(), set()
    stores = []
    drops = set()
    scal = {}
    for s in states:
        for e, a in alts(s.log):
            for f, pol in a[1]:
                if f[0] == "eq":
                    for x, y in ((f[1], f[2]), (f[2], f[1])):
                        if x[0] == "front" and y[0] == "lit":
                            marks.add(y[1] if isinstance(y[1], str) else chr(y[1]))
                        if x[0] == "find" and x[2][0] == "lit" and mentions(x[1], lambda z: isinstance(z, tuple) and z and z[0] == "line" and len(z) == 4):
                            c = x[2][1]
                            colons.add(c if isinstance(c, str) else chr(c))
            ex = [x for x in a[0] if x[0] == "ext" and x[1][2] in ("double", "float")]
            if any(y[0] in ("e", "c") and not (isinstance(y[1], int) or y[1][0] == "lit") for x in ex if is_path(x[2]) for y in x[2][2:]):
                opn.add("a number is read into a place that is not tracked (%s)" % ex[0][3])
                continue
            if ex and not any(x[0] == "store" and x[1][1] == "this" for x in a[0]):
                inner = [x for x in a[0] if x[0] == "store"]
                if not inner:
                    drops.add("a number read is dropped on some path (%s)" % ex[0][3])
        for e, ls in walk(s.log):
            if e[0] == "store" and e[1][1] == "this" and len(e[1]) > 2:
                stores.append((e, ls))
            if e[0] == "move" and e[2] == THIS and any(k for k in walk(s.log) if k[0][0] == "ext" and is_path(k[0][2]) and under(k[0][2], e[1])):
                raise Und("the object is read elsewhere and then assigned")
    bad |= drops
    if len(marks) > 1 or len(colons) > 1:
        raise Und("keyword syntax")
    mark = marks.pop() if marks else "*"
    colon = colons.pop() if colons else ":"
    secs = sections(doc, mark, colon)
    if secs is None:
        bad.add("the text written does not start with a line '%sKEY%s' as the reader requires" % (mark, colon))
        return
    by = {}
    for k, it in secs:
        if k in by:
            raise Und("section %s written twice" % k)
        by[k] = it
    # reader: key -> {dest: descriptor}
    rd = {}
    for e, ls in stores:
        ks = key_of(e[5], by)
        if len(ks) != 1:
            raise Und("keyword of the store at %s" % e[4])
        k = ks.pop()
        dest = e[1]
        i = next((n for n, x in enumerate(dest[2:], 2) if x[0] == "e"), None)
        C = dest[:i] if i else dest
        d = rd.setdefault(k, {})
        d.setdefault((C, i is not None or e[3] == "push"), []).append((e, ls))
    for k in by:
        if k not in rd:
            bad.add("the section '%s' is written, but the reader does not know it" % k)
    for k in rd:
        if k not in by:
            bad.add("the reader's section '%s' is never written" % k)
    fields = leaves_of(ctx.prog, cls, THIS)
    for l in fields:
        if not any(any(numpath(x[1]) is not None and under(numpath(x[1]), l) for x in flat(it) if x[0] == "num") for it in by.values()):
            if not any(numpath(x[1]) is None for it in by.values() for x in flat(it) if x[0] == "num"):
                bad.add("%s is not saved in text mode" % show(l))
        if not any(C == l or under(l, C) for d in rd.values() for C, e_ in d):
            bad.add("%s is not restored in text mode" % show(l))
    for k, it in by.items():
        if k in rd:
            section_match(k, it, rd[k], bad)


WS = re.compile(r"[ \t]+$")


def section_match(k, items, dests, bad):
    scalars = {C: v for (C, el), v in dests.items() if not el}
    elems = {C: v for (C, el), v in dests.items() if el}
    for x in flat(items):
        if x[0] == "num":
            if numpath(x[1]) is None:
                v = x[1]
                if v[0] in ("bin", "narrow") or v[0] == "fn" and v[1] in ("abs", "fabs", "min", "max", "round", "floor", "ceil", "trunc", "lround"):
                    bad.add("section '%s' writes %s instead of a stored value (%s)" % (k, show(v), x[5]))
                    return
                raise Und("value written in section %s: %s" % (k, show(v)))
            fmt_ok(x, k, bad)
    top = [x for x in items if x[0] != "text" or x[1]]
    # scalars: numbers on the first line
    want = {}
    for C, evs in scalars.items():
        for e, ls in evs:
            v = e[2]
            if v[0] != "ext":
                if mentions(v, lambda y: isinstance(y, tuple) and y and y[0] == "ext"):
                    bad.add("section '%s': %s is not stored as it was read (%s)" % (k, show(C), e[4]))
                    return
                raise Und("value stored in %s" % show(C))
            le = v[3]
            while le[0] == "trim":
                le = le[1]
            if not (le[0] == "val" and le[1][-1][0] == "e"):
                raise Und("source of %s" % show(C))
            if le[1][-1][1] != ("lit", 0):
                raise Und("line of %s" % show(C))
            want[C] = (v[4], v[2], e[4])
    lead = []
    rest = list(top)
    seen_nl = False
    got = False
    while rest:
        x = rest[0]
        if x[0] == "text":
            t = x[1]
            if not got:
                if "\n" in t and t.strip() == "":
                    rest.pop(0)
                    lead.append(x)
                    continue
                rest.pop(0)
                lead.append(x)
                continue
            if "\n" in t:
                lead.append(("text", t[:t.index("\n") + 1]))
                r = t[t.index("\n") + 1:]
                rest[0] = ("text", r)
                if not r:
                    rest.pop(0)
                break
            lead.append(x)
            rest.pop(0)
        elif x[0] == "num" and (want or not elems):
            got = True
            lead.append(x)
            rest.pop(0)
        else:
            break
    nums = [x for x in lead if x[0] == "num"]
    for C, (n, kind, loc) in want.items():
        if not isinstance(n, int):
            raise Und("position of %s" % show(C))
        if n >= len(nums):
            bad.add("section '%s': %s is not written where the reader expects it" % (k, show(C)))
            return
        w = numpath(nums[n][1])
        if w != C:
            bad.add("section '%s': number %d of the first line is %s when written, but is read into %s (%s)" % (k, n + 1, show(w), show(C), loc))
        ty = nums[n][2]
        if ty == "int" and kind not in ("int", "long", "long long") or ty == "double" and kind not in ("double", "long double"):
            bad.add("section '%s': %s is written as %s and read as %s (%s)" % (k, show(C), ty, kind, loc))
    if want:
        if len(nums) > len(want):
            bad.add("section '%s': %d numbers are written on the first line, %d are read" % (k, len(nums), len(want)))
        prev = None
        for x in lead:
            if x[0] == "num":
                if prev == "num":
                    bad.add("section '%s': two numbers are written without a separator" % k)
                prev = "num"
            else:
                if x[1].strip() and prev is not None and not x[1].strip() == "":
                    raise Und("text between numbers in section %s" % k)
                prev = "text"
    if not elems:
        if any(x[0] == "loop" for x in rest):
            raise Und("loop in section %s" % k)
        return
    if len(elems) != 1:
        raise Und("several containers in section %s" % k)
    (C, evs), = elems.items()
    # writer side: find the loop nest
    loops = []
    body = [x for x in rest]
    pre = ""
    post = ""
    while True:
        ls = [x for x in body if x[0] == "loop"]
        if len(ls) != 1:
            if not ls:
                bad.add("section '%s': the elements of %s are not written" % (k, show(C))) if not any(x[0] == "num" for x in body) else None
            raise Und("loop structure of section %s" % k)
        l = ls[0]
        i = body.index(l)
        if any(x[0] == "num" for x in body):
            raise Und("numbers outside the loop of section %s" % k)
        pre += "".join(x[1] for x in body[:i])
        tail = "".join(x[1] for x in body[i + 1:])
        inner = [(it, f) for it, f in l[2]]
        if len(inner) == 1 and any(x[0] == "loop" for x in inner[0][0]):
            loops.append((l[1], inner[0][1]))
            body = inner[0][0]
            continue
        break
    if pre.strip() or tail.strip():
        raise Und("text around the elements of section %s" % k)
    # reader side
    e0 = evs[0][0]
    val = e0[2]
    ent, delim = [], None
    if val[0] == "ext":
        ent = [(None, val)]
    elif val[0] == "parts":
        ent = [(kk[0][1], x) for kk, x in val[1:]]
    else:
        raise Und("value stored in %s" % show(C))
    srcs = set()
    order = {}
    for c, x in ent:
        if x[0] != "ext":
            bad.add("section '%s': component %s of %s is not stored as it was read (%s)" % (k, c, show(C), e0[4]))
            return
        srcs.add(x[3])
        order[x[4]] = c
        if x[2] not in ("double", "long double"):
            bad.add("section '%s': %s is read as %s (%s)" % (k, show(C), x[2], e0[4]))
    if len(srcs) != 1:
        raise Und("source of the elements of %s" % show(C))
    src = srcs.pop()
    while src[0] == "trim":
        src = src[1]
    if src[0] == "line":
        delim = chr(src[2]) if isinstance(src[2], int) else None
        src = src[1]
        while src[0] == "trim":
            src = src[1]
    if src[0] != "val" or src[1][-1][0] != "e":
        raise Und("source of the elements of %s" % show(C))
    lidx = src[1][-1][1]
    L = src[1][:-1]
    hdr = 1 if want else 0
    for e, ls in evs:
        x = e[2] if e[2][0] == "ext" else e[2][1][1] if e[2][0] == "parts" else None
        if x is None or x[0] != "ext":
            raise Und("value stored in %s" % show(C))
        x = x[3]
        while x[0] in ("trim", "line"):
            x = x[1]
        if x[0] != "val" or x[1][-1][0] != "e":
            raise Und("source of the elements of %s" % show(C))
        lidx, L = x[1][-1][1], x[1][:-1]
        if e[3] == "push":
            if lidx[0] != "iter" and lidx[0] != "phi":
                raise Und("lines of section %s" % k)
            if lidx[0] == "phi":
                chk = reader_lines(lidx, L, ls, e, hdr, None)
                if chk:
                    bad.add("section '%s': %s (%s)" % (k, chk, e[4]))
        else:
            chk = reader_lines(lidx, L, ls, e, hdr, e[1][len(C)][1])
            if chk:
                bad.add("section '%s': %s (%s)" % (k, chk, e[4]))
    want_order = [order.get(i, "?") for i in range(len(order))]
    if "?" in want_order:
        raise Und("order of the components")
    # alternatives of the writer's innermost loop
    for it, f in inner:
        ns = [x for x in it if x[0] == "num"]
        if any(x[0] == "loop" for x in it):
            raise Und("nested loop with branches")
        if not ns:
            bad.add("section '%s': some elements of %s are not written (%s)" % (k, show(C), l[1][1]))
            continue
        elem = None
        comps = []
        for x in ns:
            p = numpath(x[1])
            i = next((n for n, y in enumerate(p[2:], 2) if y[0] == "e"), None)
            if i is None or p[:i] != C:
                bad.add("section '%s' writes %s, which is read into %s (%s)" % (k, show(p), show(C), x[5]))
                return
            if elem not in (None, p[:i + 1]):
                raise Und("several elements per iteration")
            elem = p[:i + 1]
            r = p[i + 1:]
            comps.append(r[0][1] if r else None)
            if r and not isinstance(r[0][1], int):
                raise Und("component written")
        if comps != want_order:
            bad.add("section '%s': the components are written in the order %s and read in the order %s (%s)" % (k, comp(comps), comp(want_order), ns[0][5]))
        C2, how = visit(loops + [(l[1], f)], elem, None)
        why = judge_visit(C, how)
        if why:
            bad.add("section '%s': %s: %s (%s)" % (k, show(C), why, ns[0][5]))
        # separators
        last = any(ff[0] == "eq" and pol and any(psub(a, ("bin", "-", ("size", C), ("lit", 1))) == {} for a in ff[1:]) for ff, pol in f) or \
            any(ff[0] == "lt" and not pol and psub(("bin", "+", ff[1], ("lit", 1)), ff[2]) in ({},) for ff, pol in f) or \
            any(ff[0] == "lt" and not pol and ff[2] == ("size", C) and poly(ff[1]).get((), 0) == 1 for ff, pol in f)
        # between components
        seps, cur, before = [], "", ""
        started = False
        for x in it:
            if x[0] == "num":
                if started:
                    seps.append(cur)
                else:
                    before = cur
                started = True
                cur = ""
            else:
                cur += x[1]
        after = cur
        for sp in seps:
            if sp == "" or sp.strip() or "\n" in sp:
                bad.add("section '%s': the components of a point are separated by %r, the reader expects blanks (%s)" % (k, sp, ns[0][5]))
        seg = before + after
        if last:
            continue
        okc = {"\n"} | ({delim} if delim else set())
        if seg.strip(" \t\n" + (delim or "")):
            bad.add("section '%s': elements are separated by %r, the reader expects %r (%s)" % (k, seg, delim or "a new line", ns[0][5]))
        elif not any(c in seg for c in okc):
            early = None
            for ff, pol in f:
                if ff[0] == "lt" and not pol:
                    d = psub(ff[2], ff[1])
                    vs = [m for m in d if m != ()]
                    if d.get((), 0) < -1 and len(vs) == 2 and {d[m] for m in vs} == {1, -1} and any(m == (("size", C),) and d[m] == 1 for m in vs):
                        early = -d[()]
            if early:
                bad.add("section '%s': the last %d elements are not separated, the reader expects %r (%s)" % (k, early, delim or "a new line", ns[0][5]))
                continue
            if before and after == "" or len(inner) > 1:
                raise Und("separator of section %s" % k)
            bad.add("section '%s': elements are separated by %r, the reader expects %r (%s)" % (k, seg, delim or "a new line", ns[0][5]))
    if tail and "\n" not in tail and not all("\n" in "".join(x[1] for x in it if x[0] == "text") for it, f in inner):
        bad.add("section '%s' does not end with a new line" % k)


def comp(c):
    return " ".join("xyzw"[x] if isinstance(x, int) and x < 4 else str(x) for x in c)


def reader_lines(lidx, L, ls, e, hdr, destidx):
    """the reader visits every line after the hdr first ones and stores line n at element n - hdr"""
    if lidx[0] == "iter":
        return None if hdr == 0 else None
    if lidx[0] != "phi":
        raise Und("line index")
    lp = None
    for l in ls:
        for ph, (init, nx) in l[4]:
            if ph == lidx:
                lp = (l, init, nx)
    if lp is None:
        raise Und("line loop")
    l, init, nx = lp
    if init[0] != "lit":
        raise Und("first line")
    if init[1] != hdr:
        return "reading starts at line %d of the section instead of %d" % (init[1], hdr)
    nx = {x for x in nx if x is not None}
    if len(nx) != 1 or psub(next(iter(nx)), lidx) != {(): 1}:
        raise Und("line step")
    bound = None
    for a in l[5]:
        for f, pol in a[1]:
            if f[0] == "lt" and pol and f[1] == lidx:
                bound = f[2]
            if f[0] == "lt" and not pol and f[2] == lidx:
                bound = ("bin", "+", f[1], ("lit", 1))
    if bound is None:
        raise Und("last line")
    d = psub(bound, ("size", L))
    if d and all(m == () for m in d):
        return "the last line is read %d lines before the end" % -d[()] if d[()] < 0 else "lines past the end are read"
    if d:
        # number of points plus header lines, validated against the number of lines
        ok = any(f[0] == "eq" and pol and psub(f[1], f[2]) in (psub(("bin", "-", ("size", L), ("lit", hdr)), ("bin", "-", bound, ("lit", hdr))),
                                                                psub(("bin", "-", bound, ("lit", hdr)), ("bin", "-", ("size", L), ("lit", hdr)))) for f, pol in e[5])
        if not ok:
            raise Und("number of lines read")
    if destidx is not None:
        o = psub(destidx, lidx)
        if any(m != () for m in o):
            raise Und("destination index")
        if o.get((), 0) != -hdr:
            return "line %d of the section is stored as element %d" % (hdr, hdr + o.get((), 0))
    return None
