#!/usr/bin/env python3
"""Writes /verif/build/build.ninja: /repo's library sources (current working tree) + the simulator, one binary.

Compilations go through ccache (content addressed), so a check pays only for the translation units whose content
changed, whatever the file times are."""
import glob, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
os.makedirs(B, exist_ok=True)
SKIP = {"surface/detect_symmetry.cpp", "surface/mesh_ray_tracer.cpp", "utilities/unit_vector3.cpp"}
lib = sorted(os.path.relpath(p, R + "/src") for p in glob.glob(R + "/src/*/*.cpp"))
lib = [p for p in lib if p not in SKIP]
sim = sorted(os.path.basename(p) for p in glob.glob(V + "/sim/*.cpp"))
cxx = "/usr/bin/g++"
if shutil.which("ccache"):
    cxx = "ccache " + cxx
inc = f"-I{V}/stub -I{R}/include -I{R}/deps/nanort/include -I{R}/deps/nanoflann/include -isystem /usr/include/suitesparse -isystem /usr/include/eigen3"
warn = "-w"
base = f"-DGC_HAVE_SUITESPARSE -DNOMINMAX -D_USE_MATH_DEFINES -D_GLIBCXX_ASSERTIONS {inc} -g1 {warn} -fno-omit-frame-pointer -fsanitize=address --param asan-stack=1 -fmax-errors=5"
out = []
w = out.append
w("ninja_required_version = 1.3")
w(f"rule cc\n  command = {cxx} $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
w(f"rule link\n  command = /usr/bin/g++ -fsanitize=address -Wl,--wrap=malloc -Wl,--wrap=realloc -Wl,--wrap=calloc -Wl,--wrap=free -Wl,--wrap=clock -no-pie $in -o $out -lspqr -lcholmod -lumfpack -lsuitesparseconfig -llapack -lblas\n  description = LINK $out")
objs = []
for s in lib:
    o = f"{B}/lib/{s}.o"
    w(f"build {o}: cc {R}/src/{s}\n  flags = -std=c++14 -O1 {base}")
    objs.append(o)
for s in sim:
    o = f"{B}/sim/{s}.o"
    w(f"build {o}: cc {V}/sim/{s}\n  flags = -std=c++17 -O1 {base} -I{V}/sim")
    objs.append(o)
w(f"build {B}/sim_bin: link " + " ".join(objs))
w(f"default {B}/sim_bin")
txt = "\n".join(out) + "\n"
p = f"{B}/build.ninja"
if not (os.path.exists(p) and open(p).read() == txt):
    open(p, "w").write(txt)
