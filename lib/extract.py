"""Builds the extractor if needed and dumps /repo's current sources; returns the loaded JSON."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HGDB_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
STD_HEADERS = ("algorithm functional iomanip map memory optional set sstream string tuple "
               "unordered_map unordered_set vector").split()


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse failure): an error exit."""


def build_extractor():
    src = os.path.join(HERE, "extractor", "hgdbx.cc")
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "hgdbx-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o",
           tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build extractor: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def flags(gen_dir):
    f = ["-DASIO_STANDALONE", "-DFMT_CONSTEVAL=", "-DPERF_COUNT", "-I" + gen_dir,
         "-I" + os.path.join(HERE, "stubs"), "-I/usr/share/verilator/include/vltstd",
         "-I" + REPO + "/include", "-I" + REPO + "/src", "-std=c++20", "-fPIC", "-w",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    for h in STD_HEADERS:
        f += ["-include", h]
    return f


def units():
    srcs = []
    d = os.path.join(REPO, "src")
    for n in sorted(os.listdir(d)):
        if n.endswith(".cc"):
            srcs.append(os.path.join(d, n))
    v = os.path.join(REPO, "tools", "vcd")
    if os.path.isdir(v):
        for n in sorted(os.listdir(v)):
            if n.endswith(".cc"):
                srcs.append(os.path.join(v, n))
    return srcs


def content_key(exe, srcs):
    h = hashlib.sha256(exe.encode())
    for root in ("src", "include", "tools", "bindings"):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for n in sorted(fn):
                if n.endswith((".cc", ".hh", ".h", ".json", ".in", ".cpp", ".hpp")):
                    p = os.path.join(dp, n)
                    h.update(p.encode())
                    with open(p, "rb") as f:
                        h.update(f.read())
    for dp, dn, fn in sorted(os.walk(os.path.join(HERE, "stubs"))):
        for n in sorted(fn):
            with open(os.path.join(dp, n), "rb") as f:
                h.update(f.read())
    return h.hexdigest()[:20]


def extract():
    """Returns {unit path: parsed JSON}.  The dump is keyed by the content of the sources, so a
    re-run on an unchanged tree may reuse it; any edit to the tree changes the key."""
    exe = build_extractor()
    srcs = units()
    if not srcs:
        raise AnalysisBroken("no source files under " + REPO)
    key = content_key(exe, srcs)
    dumps = os.environ.get("HGDB_DUMPS", BUILD)
    os.makedirs(dumps, exist_ok=True)
    cache = os.path.join(dumps, "dump-" + key)
    if not os.path.isdir(cache):
        for n in os.listdir(dumps):
            if n.startswith("dump-"):
                shutil.rmtree(os.path.join(dumps, n), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-dump-", dir=dumps)
        gen = os.path.join(tmp, "gen")
        os.makedirs(gen)
        tmpl = open(os.path.join(REPO, "src", "jschema.hh.in")).read()
        schema = open(os.path.join(REPO, "include", "schema.json")).read()
        import re
        with open(os.path.join(gen, "jschema.hh"), "w") as f:
            f.write(re.sub(r"(\$\{\w+\}|@\w+@)", lambda m: schema, tmpl))
        fl = flags(gen)

        def one(src):
            out = os.path.join(tmp, os.path.relpath(src, REPO).replace("/", "__") + ".out")
            r = subprocess.run([exe, out, REPO + "/", src, "--"] + fl, capture_output=True,
                               text=True)
            return src, out, r

        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, srcs))
        for src, out, r in results:
            if not os.path.exists(out):
                raise AnalysisBroken("extractor failed on %s: %s" % (src, r.stderr[-1500:]))
            with open(out + ".log", "w") as f:
                f.write(r.stderr)
        try:
            os.replace(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    res = {}
    for src in srcs:
        p = os.path.join(cache, os.path.relpath(src, REPO).replace("/", "__") + ".out")
        with open(p) as f:
            d = json.load(f)
        d["log"] = open(p + ".log").read()
        res[src] = d
    return res
