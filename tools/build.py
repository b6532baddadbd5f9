"""Builds the simulator binaries from /repo's current working tree (ninja, incremental)."""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MPSIM_REPO", "/repo")
BUILD = os.environ.get("MPSIM_BUILD", os.path.join(VERIF, "build"))

DEFS = "-DNDEBUG -DKOKKOS_DEPENDENCE -DMPART_HAS_CEREAL -DMPART_HAS_NLOPT -DNLOPT_DLL -DKOKKOS_ENABLE_CXX17"
COMMON = "-std=gnu++17 -g0 -fno-pie -fopenmp -ffp-contract=off -Wno-psabi -w"
# the library and the workloads that use its headers: every memory access is a call into the simulator
INSTR = "-O1 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 --param tsan-distinguish-volatile=1"
PLAIN = "-O2"
RESIZE = "_ZN6Kokkos4Impl14OpenMPInternal18resize_thread_dataEmmmm"
LINK = f"-no-pie -rdynamic -Wl,--wrap={RESIZE} -Wl,--wrap=_ZN6Kokkos8finalizeEv -lkokkoscore -lnlopt -ldl"

def esc(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def targets():
    return sorted(os.path.basename(p)[2:-4] for p in glob.glob(f"{VERIF}/harness/w_*.cpp"))

def generate():
    os.makedirs(BUILD, exist_ok=True)
    lib = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    o = ["ninja_required_version = 1.5", f"builddir = {BUILD}",
         "rule cxx", f"  command = g++ {DEFS} $opt {COMMON} -I{REPO} -isystem /usr/include/eigen3 -I{VERIF}/sim -I{VERIF}/harness -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
         "rule link", f"  command = g++ -o $out $in {LINK}", "  description = LINK $out"]
    libo = []
    for s in lib:
        ob = f"lib/{os.path.relpath(s, REPO)}.o"; libo.append(ob)
        o += [f"build {ob}: cxx {esc(s)}", f"  opt = {INSTR}"]
    simo = []
    for s in sorted(glob.glob(f"{VERIF}/sim/*.cpp")):
        ob = f"sim/{os.path.basename(s)}.o"; simo.append(ob)
        o += [f"build {ob}: cxx {esc(s)}", f"  opt = {PLAIN}"]
    shared = []
    for s in sorted(glob.glob(f"{VERIF}/harness/*.cpp")):
        b = os.path.basename(s)
        if b.startswith("w_"): continue
        ob = f"harness/{b}.o"
        o += [f"build {ob}: cxx {esc(s)}", f"  opt = {PLAIN if b.startswith('ref') else INSTR}"]
        shared.append((b, ob))
    instr_shared = [x for b, x in shared if not b.startswith("ref")]
    plain_shared = [x for b, x in shared if b.startswith("ref")]
    for t in targets():
        ob = f"harness/w_{t}.cpp.o"
        o += [f"build {ob}: cxx {VERIF}/harness/w_{t}.cpp", f"  opt = {INSTR}",
              f"build bin/{t}: link {' '.join(libo + [ob] + instr_shared + plain_shared + simo)}"]
    txt = "\n".join(o) + "\n"
    p = f"{BUILD}/build.ninja"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)

def build(names, jobs=8, quiet=True):
    generate()
    r = subprocess.run(["ninja", "-C", BUILD, f"-j{jobs}"] + [f"bin/{n}" for n in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        return False
    return True

if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or targets()) else 1)
