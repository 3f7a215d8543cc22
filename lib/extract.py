"""Obtain the program under analysis from /repo's *current* working tree.

Nothing here looks at /repo/_build: sources are copied to a scratch directory, the project's own generator
scripts (gperf, ragel) are run there, clang lowers the result to LLVM IR and tools/irx exports it as JSON.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OHCOUNT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = ["clang", "-std=gnu17", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names",
         "-w", "-emit-llvm", "-c"]


class AnalysisBroken(Exception):
    """The analysis could not be carried out: an anchor is gone, a tool failed. Never a verdict."""


def run(cmd, cwd=None, env=None, stdout=subprocess.PIPE, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=stdout, stderr=subprocess.PIPE)
    if check and p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-2000:]))
    return p


def llvm_flags():
    cfg = shutil.which("llvm-config-18") or shutil.which("llvm-config")
    cxx = run([cfg, "--cxxflags"]).stdout.decode().split()
    ld = run([cfg, "--ldflags", "--libs"]).stdout.decode().split()
    return cxx, ld


def tool(name):
    """Path of a built tool; builds it when missing or older than its source."""
    src = os.path.join(VERIF, "tools", name + ".cpp")
    out = os.path.join(BUILD, name)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        cxx, ld = llvm_flags()
        tmp = "%s.%d" % (out, os.getpid())
        run(["clang++", "-O2", "-std=c++17"] + cxx + [src, "-o", tmp] + ld)
        os.rename(tmp, out)
    return out


_scratch = []


def scratch():
    d = tempfile.mkdtemp(prefix="ohcount-sa-")
    _scratch.append(d)
    return d


@atexit.register
def _clean():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


def tree_hash(sub=("src",)):
    h = hashlib.sha256()
    for s in sub:
        for root, dirs, files in os.walk(os.path.join(REPO, s)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for t in ("irx.cpp", "pz.cpp"):
        p = os.path.join(VERIF, "tools", t)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:24]


def cache(name, sub, make):
    """make(path) writes path; kept under build/cache keyed by the analysed sources' content."""
    d = os.path.join(BUILD, "cache", tree_hash(sub))
    p = os.path.join(d, name)
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d" % (p, os.getpid())
        make(tmp)
        os.rename(tmp, p)
    return p


def copy_src(dst):
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"), symlinks=True)
    src = os.path.join(dst, "src")
    for d, pat in (("parsers", r".*\.h$"), ("hash", r".*\.h$|language_hash\.c$")):
        for f in os.listdir(os.path.join(src, d)):
            if re.match(pat, f):
                os.unlink(os.path.join(src, d, f))
    return src


ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")


def gen_hash(src):
    run(["bash", "./generate_headers"], cwd=os.path.join(src, "hash"), env=ENV)
    for f in re.findall(r"> *([a-z_]+\.[ch])\s*$", open(os.path.join(src, "hash", "generate_headers")).read(), re.M):
        p = os.path.join(src, "hash", f)
        if not os.path.exists(p) or os.path.getsize(p) == 0:
            raise AnalysisBroken("gperf produced nothing for src/hash/" + f)


def gen_parsers(src, goto=False):
    """Run the project's own src/parsers/compile. With goto, a `ragel` wrapper adds -G2, so that the automaton
    becomes explicit control flow (same state machine, other code style)."""
    env = dict(ENV)
    if goto:
        w = scratch()
        real = shutil.which("ragel")
        with open(os.path.join(w, "ragel"), "w") as f:
            f.write('#!/bin/sh\nexec %s -G2 "$@"\n' % real)
        os.chmod(os.path.join(w, "ragel"), 0o755)
        env["PATH"] = w + ":" + env["PATH"]
    run(["bash", "./compile"], cwd=os.path.join(src, "parsers"), env=env)
    out = []
    for f in sorted(os.listdir(os.path.join(src, "parsers"))):
        if f.endswith(".rl"):
            h = os.path.join(src, "parsers", f[:-3] + ".h")
            if not os.path.exists(h) or os.path.getsize(h) == 0:
                raise AnalysisBroken("ragel produced nothing for src/parsers/" + f)
            out.append(f[:-3])
    return out


def par(fn, items, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


BASE = "inferattrs,function(sroa,simplifycfg),cgscc(function-attrs)"
INL = ",always-inline,function(sroa,early-cse<memssa>,simplifycfg,early-cse<memssa>)" * 2 + \
    ",function(unroll-tables,instsimplify,simplifycfg,early-cse<memssa>)"     # twice: a function given to a helper


THR = ",function(jump-threading,simplifycfg)"


def _link(path):
    w = scratch()
    src = copy_src(w)
    gen_hash(src)
    gen_parsers(src)
    units = [(u, os.path.join(src, u)) for u in sorted(f for f in os.listdir(src) if f.endswith(".c"))]
    units += [("language_hash.c", os.path.join(src, "hash", "language_hash.c"))]

    def cc(u):
        o = os.path.join(w, u[0][:-2] + ".bc")
        # compiled from the tree root with relative paths, so that debug locations read src/...
        run(CLANG + [os.path.relpath(u[1], w), "-o", o], cwd=w)
        return o
    run(["llvm-link"] + par(cc, units) + ["-o", path])


def _irx(path, args):
    bc = cache("all.bc", ("src",), _link)
    with open(path, "wb") as f:
        run([tool("irx"), bc] + args, stdout=f)


SKIP = ["--skip=.rl", "--skip=.rl.tmp"]


def core():
    """JSON module: hand-written C (+ gperf output), parser bodies dropped; each function on its own."""
    p = cache("core.json", ("src",), lambda q: _irx(q, SKIP + ["--passes=" + BASE + ",function(early-cse<memssa>)"]))
    with open(p) as f:
        return json.load(f)


def inlined(keep):
    """As core(), with every callee inlined into its callers except `keep` and recursive functions."""
    tag = hashlib.sha256(",".join(keep).encode()).hexdigest()[:8]
    p = cache("inl-%s.json" % tag, ("src",),
              lambda q: _irx(q, SKIP + ["--inline", "--keep=" + ",".join(keep), "--passes=" + BASE + INL]))
    with open(p) as f:
        return json.load(f)


def threaded(keep):
    """As inlined(), with ways through joins told apart (a flag set before a join and tested behind it)."""
    tag = hashlib.sha256(",".join(keep).encode()).hexdigest()[:8]
    p = cache("thr-%s.json" % tag, ("src",),
              lambda q: _irx(q, SKIP + ["--inline", "--keep=" + ",".join(keep), "--passes=" + BASE + INL + THR]))
    with open(p) as f:
        return json.load(f)


def full():
    """JSON module with the (table-driven) parser bodies included."""
    p = cache("full.json", ("src",), lambda q: _irx(q, ["--passes=" + BASE]))
    with open(p) as f:
        return json.load(f)


def _parsers(path):
    """tools/pz on every parser, one translation unit per .rl file, in parallel."""
    w = scratch()
    src = copy_src(w)
    gen_hash(src)
    names = gen_parsers(src, goto=True)
    pz = tool("pz")

    order = [x for x in re.findall(r'#include "\.\./parsers/([a-z0-9_]+)\.h"',
                                   open(os.path.join(src, "hash", "parsers.gperf")).read()) if x in names]

    def one(n):
        h = open(os.path.join(src, "parsers", n + ".h"), errors="replace").read()
        want = sorted(set(re.findall(r"\bvoid\s+(parse_\w+)\s*\(\s*char", h)))
        u = os.path.join(src, "u_%s.c" % n)
        b = u[:-2] + ".bc"
        # a header may use names of headers the project includes before it
        for pre in ([], order[:order.index(n)] if n in order else order):
            with open(u, "w") as f:
                f.write('#include "sourcefile.h"\n' + "".join('#include "parsers/%s.h"\n' % x for x in pre + [n]))
            p = run(CLANG + [os.path.relpath(u, w), "-o", b], cwd=w, check=False)
            if p.returncode == 0:
                break
        else:
            raise AnalysisBroken("cannot compile parser %s: %s" % (n, p.stderr.decode(errors="replace")[-800:]))
        if not want:
            return n, {}
        p = run([pz, b] + want, cwd=w)
        os.unlink(b)
        return n, json.loads(p.stdout)
    names.sort(key=lambda n: -os.path.getsize(os.path.join(src, "parsers", n + ".h")))
    out = {}
    for n, d in par(one, names):
        for f, r in d.items():
            # a header may include another parser's header: the same function is analysed in several units
            # (as extra languages' globals may differ); merge
            r["unit"] = n
            out.setdefault(f, []).append(r)
    with open(path, "w") as f:
        json.dump({"units": names, "functions": out}, f)


def parsers():
    p = cache("parsers.json", ("src",), _parsers)
    with open(p) as f:
        return json.load(f)
