"""Verify planted bugs: seeded/<id>/{patch.diff,demo.sh,meta.json}.

    plant.py make FILE.py      write seeded/ directories from a list BUGS of dicts
    plant.py test [ID...]      build, baseline tests, demo with and without the patch, the property's check
Each bug runs in its own mount namespace where a patched copy of the repository is mounted over /repo, so that several
can run at once and the real working tree is never touched.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
BASE = "7b7aa3a"
SRC = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(copy, cmd, timeout=1200, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO="/repo", **(env or {}))
    q = "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)
    return subprocess.run(["unshare", "-rm", "sh", "-c", q], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=e)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = tempfile.mkdtemp(prefix="plant")
        try:
            copy = os.path.join(d, "repo")
            sh("git clone -q %s %s" % (SRC, copy))
            blamed = True
            for f, old, new in b["edits"]:
                p = os.path.join(copy, "rebulk", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(b["id"], "edit matches", t.count(old), "times:", old[:60])
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = sh("git -C %s diff" % copy).stdout
                blamed = original(copy, diff)
                out = os.path.join(SEEDED, b["id"])
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
                open(os.path.join(out, "demo.sh"), "w").write(
                    '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
                print(b["id"], "written", "" if blamed else "** touches lines that are not original")
        finally:
            shutil.rmtree(d, ignore_errors=True)


def original(copy, diff):
    f, line, ok = None, 0, False
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m:
            line = int(m.group(1))
        elif l.startswith("-") and not l.startswith("---"):
            w = sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (copy, line, line, f)).stdout
            ok = ok or w.lstrip("^").startswith(BASE[:7]) or w.startswith("^")
            line += 1
        elif l.startswith(" "):
            line += 1
    return ok


def run(i, check=True):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="plant")
    res = {"id": i, "property": meta["property"]}
    try:
        copy = os.path.join(t, "repo")
        sh("git clone -q %s %s" % (SRC, copy))
        demo = os.path.join(t, "demo")
        shutil.copytree(d, demo)
        os.remove(os.path.join(demo, "patch.diff"))
        r = inside(copy, "sh %s/demo.sh" % demo)
        res["clean"] = r.returncode
        if r.returncode:
            res["out"] = r.stdout[-600:]
        p = sh("git -C %s apply %s/patch.diff" % (copy, d))
        if p.returncode:
            res["apply"] = p.stdout
            return res
        res["patched"] = inside(copy, "sh %s/demo.sh" % demo).returncode
        o = os.path.join(t, "out.json")
        inside(copy, "bash /opt/vp/test.sh %s" % o)
        passed = set(k for k, v in json.load(open(o)).items()) if False else load(o)
        res["missing"] = sorted(set(load("/opt/vp/BASELINE.json")) - set(passed))[:5]
        if check:
            c = inside(copy, "cd %s && /opt/venv/bin/python harness/check.py %s quick" % (V, meta["property"]))
            m = re.findall(r"^VIOLATION property=(\S+)", c.stdout, re.M)
            res["rc"] = c.returncode
            res["caught"] = c.returncode == 1 and meta["property"] in m
            res["clause"] = re.findall(r"clause (\S+)", c.stdout)
            if c.returncode not in (0, 1):
                res["out"] = c.stdout[-1500:]
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return res


def load(path):
    o = json.load(open(path))
    for k in ("passed", "stable"):
        if k in o:
            return list(o[k])
    return [k for k, v in o.items() if v == "passed"]


def main(a):
    if a[1] == "make":
        return make(a[2])
    ids = a[2:] or sorted(os.listdir(SEEDED))
    check = a[1] == "test"
    with ThreadPoolExecutor(3 if check else 6) as ex:
        for r in ex.map(lambda i: run(i, check), ids):
            good = r.get("clean") == 0 and r.get("patched") and not r.get("missing") and "apply" not in r
            print("%-8s %-4s %s %s %s" % (r["id"], r["property"], "counts" if good else "BAD",
                                          "" if not check else "caught" if r.get("caught") else "MISSED",
                                          {k: v for k, v in r.items() if k in ("clause", "out", "apply", "missing", "rc", "clean", "patched")
                                           and (not good or k in ("clause", "rc", "out"))}), flush=True)


main(sys.argv)
