#!/usr/bin/env python3
"""Development tool: verifies planted bugs in scratch copies and writes them to /verif/seeded (no check uses this).

plant.py DEFS.py [ID...]: DEFS.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)], demo (C++),
needs, breaks.  Scratch trees: /tmp/pc (clean, built), /tmp/pr (git, built), /tmp/pv (copy of /verif)."""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

DEMO = """#!/bin/bash
# cwd: the repository, built.  Exit 0: the property holds on this input.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
L=$PWD/_build/src/libunicode
g++ -std=c++20 -O1 -w -pthread -I src "$here/demo.cpp" -o "$d/demo" -L "$L" -Wl,-rpath,"$L" -lunicode -lunicode_ucd || exit 3
cd "$d" && timeout 120 "$d/demo"
"""
BASE = set(x if isinstance(x, str) else x["id"] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main():
    only = sys.argv[2:]
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    sh("mkdir -p /tmp/pv && rsync -a --delete --exclude .git --exclude .build --exclude evidence --exclude replay /verif/ /tmp/pv/ "
       "|| (rm -rf /tmp/pv/tools /tmp/pv/checks /tmp/pv/spec /tmp/pv/harness; cp -r /verif/tools /verif/checks /verif/spec /verif/harness /verif/known_findings.txt /tmp/pv/)")
    for b in bugs:
        if only and b["id"] not in only:
            continue
        out = "/verif/seeded/" + b["id"]
        sh("git checkout -q -- . && git clean -fdq", "/tmp/pr")
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join("/tmp/pr", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches %d times in %s: %r" % (s.count(old), f, old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        rc, diff = sh("git diff", "/tmp/pr")
        rc, log = sh("bash /tmp/prbuild.sh")
        if rc:
            print(b["id"], "BUILD FAILED", log[-1500:])
            continue
        rc, log = sh("sed 's#/repo#/tmp/pr#' /opt/vp/run_cases.py > /tmp/prcases.py; python3 /tmp/prcases.py /tmp/pr/_build/src/libunicode/unicode_test 2>/dev/null")
        passed = set(l[5:] for l in log.splitlines() if l.startswith("PASS "))
        miss = BASE - passed
        if miss:
            print(b["id"], "TESTS NOTICE:", sorted(miss)[:5])
            continue
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(b.get("sh", DEMO))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r1, l1 = sh("bash %s/demo.sh" % out, "/tmp/pr")
        r0, l0 = sh("bash %s/demo.sh" % out, "/tmp/pc")
        if r0 != 0 or r1 in (0, 3):
            print(b["id"], "DEMO clean=%d bug=%d" % (r0, r1), l0[-600:], l1[-600:])
            shutil.rmtree(out)
            continue
        rc, log = sh("python3 tools/check.py " + b["property"], "/tmp/pv", env={"VERIF_REPO": "/tmp/pr", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        print(b["id"], b["property"], "CAUGHT" if rc == 1 and "VIOLATION" in log else "MISSED rc=%d" % rc, log.strip()[-160:].replace("\n", " | "), flush=True)
    sh("git checkout -q -- . && git clean -fdq", "/tmp/pr")


if __name__ == "__main__":
    main()
