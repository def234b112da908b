"""Builds a harness against /repo's current working tree (ninja, in /verif/build)."""
import fcntl, glob, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CXX = "/usr/bin/g++-13"
BASE = "-std=c++20 -w -fno-omit-frame-pointer -fno-access-control -D_GLIBCXX_ASSERTIONS"
VARIANTS = {"asan": "-O1 -fsanitize=address", "fast": "-O1"}
# what each harness needs from the repository: core (models) or all (plus entity models)
HARNESS = {
    "dist": ("fast", "dist"), "crp": ("fast", "dist"), "emis": ("fast", "emis"), "rel": ("fast", "core"), "irm": ("fast", "core"), "hirm": ("fast", "pclean"), "chain": ("fast", "core"), "infer": ("fast", "pclean"), "io": ("fast", "core"), "pclean": ("fast", "pclean"), "gendb": ("fast", "pclean"),
}
MAINS = {"hirm_main.cc", "pclean/pclean.cc", "typename_playground.cc"}

def groups():
    """repository sources that are not tests, tools or mains"""
    cxx = os.path.join(REPO, "cxx")
    out = {"dist": [], "emis": [], "core": [], "pclean": []}
    for p in sorted(glob.glob(cxx + "/**/*.cc", recursive=True)):
        r = os.path.relpath(p, cxx)
        if r.endswith("_test.cc") or r.startswith("tests/") or r in MAINS:
            continue
        if "int main(" in open(p, errors="replace").read():
            continue
        if r.startswith("distributions/") or r.startswith("util_math") or r.startswith("util_observation"):
            out["dist"].append(r)
        elif r.startswith("emissions/"):
            out["emis"].append(r)
        elif r.startswith("pclean/") or r.startswith("gendb"):
            out["pclean"].append(r)
        else:
            out["core"].append(r)
    return out

ORDER = ["dist", "emis", "core", "pclean"]

def mirror():
    """copies the repository's sources to build/src by content, so that what is rebuilt depends on what changed and not on file times"""
    src, dst = os.path.join(REPO, "cxx"), os.path.join(V, "build", "src", "cxx")
    seen = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.splitext(f)[1] not in (".cc", ".hh", ".h", ".hpp", ".cpp", ".inc", ".ipp"):
                continue
            q = os.path.join(dst, os.path.relpath(p, src))
            seen.add(q)
            data = open(p, "rb").read()
            if os.path.exists(q) and open(q, "rb").read() == data:
                continue
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "wb").write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.join(d, f) not in seen:
                os.remove(os.path.join(d, f))
    return dst

class Lock:
    def __enter__(self):
        os.makedirs(os.path.join(V, "build"), exist_ok=True)
        self.f = open(os.path.join(V, "build", ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def ninja(root, name, txt, targets, jobs, quiet=True):
    os.makedirs(root, exist_ok=True)
    path = os.path.join(root, name)
    txt = "builddir = .cache\n" + txt + "\n"
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)
    p = subprocess.run(["ninja", "-C", root, "-f", path, f"-j{jobs}", *targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("\n".join(l[:400] for l in p.stdout.splitlines() if "error" in l or "FAILED" in l or "undefined" in l)[:6000] + "\n")
        raise SystemExit(2)
    if not quiet:
        print(p.stdout[-300:])

def build(harness, variant=None, jobs=8, quiet=True):
    """one harness, or several (a list): the last one's path is returned"""
    hs = [harness] if isinstance(harness, str) else harness
    var = variant or HARNESS[hs[0]][0]
    with Lock():
        src = mirror()
        g = groups()
        flags = f"{BASE} {VARIANTS[var]}"
        shim = f"-include {V}/shim/vp_shim.hh -I{V}/shim -iquote {src} -I{V}/harness"
        n = [f"rule cc\n  command = {CXX} {flags} $x -MMD -MF $out.d -c $in -o $out\n  deps = gcc\n  depfile = $out.d\n",
             f"rule ar\n  command = rm -f $out && ar rcs $out $in\n",
             f"rule ld\n  command = {CXX} {flags} $in -o $out -pthread\n"]
        objs = []
        for l in ORDER:              # the linker takes from the archive what a harness needs
            for r in g[l]:
                o = f"obj/{r[:-3]}.o"
                n.append(f"build {o}: cc {src}/{r}\n  x = {shim}")
                objs.append(o)
        n.append(f"build vp_rt.o: cc {V}/harness/vp_rt.cc\n  x = -DVP_NO_RENAME {shim}")
        n.append(f"build lib.a: ar {' '.join(objs)}")
        for h in HARNESS:
            n.append(f"build {h}.o: cc {V}/harness/{h}.cc\n  x = {shim}")
            n.append(f"build {h}: ld {h}.o vp_rt.o lib.a")
        root = os.path.join(V, "build", var)
        ninja(root, "all.ninja", "\n".join(n), hs, jobs, quiet)
    return os.path.join(root, hs[-1])

def build_tools(jobs=8):
    """the command-line tools hirm and pclean, as the repository builds them (no shim)"""
    with Lock():
        src = mirror()
        g = groups()
        n = [f"rule cc\n  command = {CXX} -std=c++20 -w -O1 -iquote {src} -MMD -MF $out.d -c $in -o $out\n  deps = gcc\n  depfile = $out.d\n",
             f"rule ld\n  command = {CXX} $in -o $out\n"]
        objs = []
        for l in ORDER:
            for r in g[l]:
                n.append(f"build obj/{r[:-3]}.o: cc {src}/{r}")
                objs.append(f"obj/{r[:-3]}.o")
        for exe, r in (("hirm", "hirm_main.cc"), ("pclean", "pclean/pclean.cc")):
            n.append(f"build obj/main_{exe}.o: cc {src}/{r}")
            n.append(f"build {exe}: ld obj/main_{exe}.o {' '.join(objs)}")
        root = os.path.join(V, "build", "tools")
        ninja(root, "tools.ninja", "\n".join(n), ["hirm", "pclean"], jobs)
    return root

if __name__ == "__main__":
    build([a for a in sys.argv[1:] if a[0] != "-"] or list(HARNESS), quiet=False)
    if "--warm" in sys.argv:
        build_tools()
