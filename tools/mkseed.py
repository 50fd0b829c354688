#!/usr/bin/env python3
"""mkseed.py [-n] NAME...: (re)creates /verif/seeded/NAME from seeds.py and, unless -n, confirms it:
the change builds, the stable tests pass, the demo exits 0 without it and nonzero with it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from seeds import SEEDS  # noqa

DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/rig.sh"
build "$here/demo.cc" "%s"
%stimeout 100 "$T/demo" "$T"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def clean():
    r = sh("git -C /repo status --porcelain")
    if r.stdout.strip():
        sys.exit("/repo is not clean")


def make(name):
    s = SEEDS[name]
    d = os.path.join(SEEDED, name)
    clean()
    for fn, old, new in s["edits"]:
        p = os.path.join("/repo", fn)
        t = open(p).read()
        if t.count(old) != 1:
            sh("git -C /repo checkout -- .")
            sys.exit("%s: %d matches in %s for:\n%s" % (name, t.count(old), fn, old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    sh("git -C /repo checkout -- .")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    san = s.get("san", "")
    env = ""
    if san == "thread":
        env = 'TSAN_OPTIONS="halt_on_error=1 exitcode=66" '
    if san.startswith("address"):
        env = 'ASAN_OPTIONS="detect_leaks=0" UBSAN_OPTIONS="halt_on_error=1" '
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO_SH % (san, env))
    for x in ("rig.sh", "rig.hh"):
        shutil.copy(os.path.join(HERE, x), d)
    head = "#define RIG_SEND\n" if s.get("rig_send", True) else ""
    with open(os.path.join(d, "demo.cc"), "w") as f:
        f.write(head + '#include "rig.hh"\n' + s["demo"])
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]}, f, indent=1)
    return d


def confirm(name):
    d = os.path.join(SEEDED, name)
    clean()
    r = sh("bash /opt/vp/build.sh")
    a = sh("bash %s/demo.sh" % d, cwd="/repo")
    print(name, "unchanged tree: demo exits", a.returncode)
    if a.returncode:
        print(a.stdout[-3000:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        if r.returncode:
            print(r.stdout)
            return
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        print("  with the change: passed %d failed %s" % (len(res["passed"]), res["failed"]))
        if not res["passed"]:
            print(t.stdout[-3000:])
        b = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("  with the change: demo exits", b.returncode, "|", b.stdout.strip()[-300:])
        ok = a.returncode == 0 and b.returncode != 0 and not res["failed"] and res["passed"]
        prop = SEEDS[name]["property"]
        c = sh("python3 check.py %s --no-evidence" % prop, cwd=os.path.dirname(HERE))
        print("  check %s exits %d | %s" % (prop, c.returncode, c.stdout.strip()[-400:]))
        print("  =>", "CONFIRMED" if ok else "NOT CONFIRMED",
              "CAUGHT" if c.returncode == 1 else "missed")
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS)
    for n in names:
        make(n)
        if "-n" not in sys.argv:
            confirm(n)
            sys.stdout.flush()
