#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  --  rebuild from /repo's working tree, then run the simulation for one property.

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself could not decide."""
import fcntl, json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))

def build():
    os.makedirs(B, exist_ok=True)
    env = dict(os.environ)
    env.setdefault("CCACHE_DIR", os.path.join(B, "ccache"))
    env["CCACHE_COMPILERCHECK"] = "content"
    env["CCACHE_SLOPPINESS"] = "include_file_mtime,include_file_ctime"
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_NOHASHDIR"] = "1"
    env.pop("CCACHE_DISABLE", None)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(V, "tools", "gen_ninja.py")], check=True, env=env)
        r = subprocess.run(["ninja", "-C", B], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: build failed")
        sys.exit(2)

def main():
    if sys.argv[1] == "--build":
        build()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    budget = json.load(open(os.path.join(V, "budget.json")))
    b = dict(budget["default"][tier])
    b.update(budget.get(prop, {}).get(tier, {}))
    build()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C")
    cmd = [os.path.join(B, "sim_bin"), "run", "--prop", prop, "--tier", tier, "--seed", seed,
           "--runs", str(b["runs"]), "--time", str(b["time"]), "--workers", str(min(8, os.cpu_count() or 8)),
           "--evidence", os.path.join(V, "evidence", prop + ".json"), "--replays", os.path.join(V, "replays"),
           "--known", os.path.join(V, "known_findings.txt")]
    return subprocess.run(cmd, env=env, cwd="/tmp").returncode

sys.exit(main())
