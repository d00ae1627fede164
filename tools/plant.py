#!/usr/bin/env python3
"""Planted-bug workshop (not used by any check).
  plant.py make SPEC.py          write seeded/<id>/ from a list PLANTS of dicts: id, property, edits, demo, needs, breaks
  plant.py verify ID... [--no-check]
                                 in a private mount namespace over scratch copies of /repo and /verif: demo on the
                                 unchanged tree, then patch, build, stable tests, demo (must fail), check (should fail)
"""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
PR = os.environ.get("PLANT_REPO", "/repo")
DEMO = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero where the property is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
lib=$(find /repo/_build -name 'libgeometry-central*.a' | head -1)
g++ -std=c++14 -g -O0 %(flags)s -I/repo/include -I/usr/include/eigen3 -I/repo/deps/nanort/include -I"$here" \\
  "$here/demo.cpp" %(extra)s "$lib" -lcholmod -lspqr -lumfpack -lsuitesparseconfig -lamd -lcolamd -lccolamd -lcamd \\
  -o "$tmp/demo" || exit 0   # cannot judge without a build
cd "$tmp" && timeout 250 ./demo
"""
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    wt = "/tmp/plantwt"
    for p in ns["PLANTS"]:
        sh(f"git -C {PR} worktree remove --force {wt}; git -C {PR} worktree prune; git -C {PR} worktree add --detach {wt} HEAD")
        ok = True
        for f, old, new in p["edits"]:
            t = open(os.path.join(wt, f)).read()
            if t.count(old) != 1:
                print(p["id"], "edit does not match once:", f, t.count(old)); ok = False; continue
            open(os.path.join(wt, f), "w").write(t.replace(old, new))
        diff = sh(f"git -C {wt} diff").stdout
        sh(f"git -C {PR} worktree remove --force {wt}; git -C {PR} worktree prune")
        if not ok: continue
        d = os.path.join(S, p["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(p["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"flags": p.get("flags", ""), "extra": p.get("extra", "")})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for name, text in p.get("files", {}).items(): open(os.path.join(d, name), "w").write(text)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", p["id"])

def inner(ids, check):
    stable = json.load(open('/opt/vp/BASELINE.json'))
    want = set(stable.get('stable') or stable.get("tests") or [])
    res = {}
    for i in ids:
        d = os.path.join(S, i); prop = json.load(open(d + "/meta.json"))["property"]
        sh("cd /repo && git checkout -q -- . && bash /opt/vp/build.sh")
        o = {}
        r = sh(f"cd /repo && bash {d}/demo.sh"); o["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        r = sh(f"git -C /repo apply {d}/patch.diff"); o["apply"] = r.returncode
        r = sh("bash /opt/vp/build.sh"); o["build"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        got = set(json.load(open("/tmp/plant_out.json"))["passed"])
        o["tests_missing"] = sorted(want - got); o["npass"] = len(got)
        r = sh(f"cd /repo && bash {d}/demo.sh"); o["demo_bug"] = r.returncode
        tail = r.stdout.strip().splitlines()[-1:]
        if check:
            t = time.time(); r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {prop} quick")
            o["check"] = r.returncode; o["check_s"] = round(time.time() - t)
            o["lines"] = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))][:2]
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
            o["last"] = r.stdout.strip().splitlines()[-2:]
        sh("cd /repo && git checkout -q -- .")
        good = o["demo_clean"] == 0 and o["demo_bug"] != 0 and not o["build"] and not o["tests_missing"]
        print(("COUNTS " if good else "REJECT ") + (("CAUGHT " if o.get("check") == 1 else "MISSED ") if check else ""), i, prop, json.dumps(o), tail, flush=True)

if sys.argv[1] == "make":
    make(sys.argv[2])
elif sys.argv[1] == "inner":
    inner([a for a in sys.argv[2:] if not a.startswith("--")], "--no-check" not in sys.argv)
else:
    ids = sys.argv[2:]
    tag = "/tmp/plant_%d" % os.getpid()
    os.makedirs(tag)
    try:
        sh(f"cp -a /repo {tag}/repo; cp -a {V} {tag}/verif; cd {tag}/repo && git stash -q; true")
        subprocess.run(["unshare", "-m", "bash", "-c",
            f"mount --bind {tag}/repo /repo && mount --bind {tag}/verif /verif && cd /verif && python3 /verif/tools/plant.py inner " + " ".join(ids)])
    finally:
        shutil.rmtree(tag)
