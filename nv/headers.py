"""Public headers: each must be a complete program text of its own; what they declare must be defined exactly once."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .frontend import compile_commands, AnalysisBroken

CLIENT = """%s
#include <vector>
template class libnurbs::Grid<double>;
template class libnurbs::Grid<int>;
template class libnurbs::Grid<libnurbs::Vec3>;
template class libnurbs::Grid<libnurbs::Vec4>;
bool nv_client(const libnurbs::Vec3& a, const libnurbs::Vec3& b, const libnurbs::Vec4& c, const libnurbs::Vec4& d)
{ return libnurbs::Approx(a, b) && libnurbs::Approx(c, d, 1e-3) && libnurbs::Approx(1.0, 2.0); }
"""


def headers(repo):
    root = os.path.join(repo, "include")
    out = []
    for base, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".hpp", ".h", ".hh")):
                out.append(os.path.relpath(os.path.join(base, f), root))
    if not out:
        raise AnalysisBroken("no public headers under include/")
    return out


def g_alone(ctx, repo):
    flags = next(iter(compile_commands(repo).values()))
    inc, k = [], 0
    while k < len(flags):
        if flags[k] in ("-I", "-isystem", "-D") and k + 1 < len(flags):
            inc += flags[k:k + 2]
            k += 1
        elif flags[k].startswith(("-I", "-D", "-std=")):
            inc.append(flags[k])
        k += 1
    hs = headers(repo)
    tmp = tempfile.mkdtemp(prefix="nvhdr.")
    progs = [("%s alone" % h, '#include "%s"\n' % h, "include/" + h) for h in hs]
    progs += [("%s twice" % h, '#include "%s"\n#include "%s"\n' % (h, h), "include/" + h) for h in hs]
    progs.append(("all headers in order", "".join('#include "%s"\n' % h for h in hs), "include/"))
    progs.append(("all headers in reverse order", "".join('#include "%s"\n' % h for h in reversed(hs)), "include/"))
    progs.append(("client of the templates", CLIENT % "".join('#include "%s"\n' % h for h in hs), "include/"))
    compilers = [["clang++-18", "-stdlib=libc++"] + inc + ["-fsyntax-only", "-w"]]
    if shutil.which("g++-13"):
        compilers.append(["g++-13"] + inc + ["-fsyntax-only", "-w"])

    def one(j):
        n, ((name, text, where), cc) = j
        p = os.path.join(tmp, "%d.cpp" % n)
        open(p, "w").write(text)
        r = subprocess.run(cc + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, where, cc[0], r.returncode, r.stdout
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate([(p, c) for p in progs for c in compilers])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad = set()
    for name, where, cc, rc, out in res:
        ctx.nobl += 1
        if rc == 0:
            continue
        first = next((l for l in out.splitlines() if "error" in l), out[:200])
        if not re.search(r"^[^ :]+:\d+:\d+: (fatal )?error", out, re.M):
            raise AnalysisBroken("%s: %s" % (cc, first[:300]))
        if name.startswith("all headers") and bad:
            continue
        bad.add(where)
        ctx.add("refuted", "a program that includes only public headers compiles", where, "%s (%s): %s" % (name, cc, first.replace(tmp, "client")[:300]))
    if not bad:
        ctx.add("proved", "a program that includes only public headers compiles", "include/", "%d headers, %d client programs, %d compilers" % (len(hs), len(progs), len(compilers)))


def g_defined(ctx):
    """Declared in a public header => defined; defined in a header => inline; one definition per program."""
    prog = ctx.prog
    und = 0
    n = 0
    for k, d in sorted(prog["declared"].items()):
        if not d["l"].startswith("include/"):
            continue
        n += 1
        ctx.nobl += 1
        if d["hasbody"] or d.get("tmpl") or d.get("pure"):
            continue
        und += 1
        ctx.add("refuted", "what a public header declares is defined in the library", d["l"].split(":")[0], "%s is declared but never defined" % k)
    ctx.add("proved" if not und else "agrees", "what a public header declares is defined in the library", "include/", "%d declarations, %d without definition" % (n, und))
    dup = 0
    m = 0
    for k, f in sorted(prog["functions"].items()):
        if f.get("lambda") or f.get("internal"):
            continue
        d = prog["declared"].get(k)
        m += 1
        ctx.nobl += 1
        if f["l"].startswith("include/") and d is not None and not (d.get("inl") or d.get("tmpl") or f.get("cls") and "<" in f["cls"]):
            dup += 1
            ctx.add("refuted", "a function has one definition in the program", f["l"], "%s is defined in a header without inline: every user defines it again" % k)
        srcs = {l for l in f.get("deflocs", []) if not l.startswith("include/")}
        if len(srcs) > 1:
            dup += 1
            ctx.add("refuted", "a function has one definition in the program", f["l"], "%s is defined in %s" % (k, ", ".join(sorted(srcs))))
    for q, g in sorted(prog["globals"].items()):
        m += 1
        if g["l"].startswith("include/") and not g.get("const") and not g.get("constexpr") and not g.get("inline") and not g.get("externonly") and not g.get("static"):
            dup += 1
            ctx.add("refuted", "a variable has one definition in the program", g["l"], "%s is a non-const variable defined in a header" % q)
    if not dup:
        ctx.add("proved", "functions and variables have one definition in the program", "include/", "%d definitions" % m)
