"""Builds the simulator, the code under test and the harness executables from /repo's working tree.

Objects are cached by the hash of everything that can influence them, so a rebuild after a change in
/repo recompiles exactly what includes repository code and nothing else."""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
SIMFLAGS = ["-std=c++17", "-O2", "-g1", "-fPIC", "-w"]
HARNFLAGS = ["-std=c++17", "-O1", "-g1", "-w"]
# the repository's own flags, with optimisation lowered so that every access is instrumented
SUTFLAGS = ["-std=c++11", "-O1", "-g1", "-fPIC", "-funsigned-char", "-DCENTAURUS_BUILD_LINUX", "-DNDEBUG", "-w"]
TSAN = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _tree(*pats):
    h = hashlib.sha256()
    for pat in pats:
        for p in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(p):
                h.update(os.path.basename(p).encode() + b"\0" + _read(p) + b"\0")
    return h.digest()


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
        self.simh = _tree(VERIF + "/sim/*.h", VERIF + "/sim/asmjit/*.h", VERIF + "/harness/*.h")
        self.repoh = _tree(REPO + "/src/core/*", REPO + "/src/pydll/*")
        self.jobs = []

    def obj(self, src, flags, dep):
        key = hashlib.sha256(repr((CXX, flags, os.path.basename(src))).encode() + _read(src) + dep).hexdigest()[:32]
        o = os.path.join(OUT, "obj", key + ".o")
        if not os.path.exists(o):
            self.jobs.append((src, flags, o))
        return o

    def compile(self):
        def one(j):
            src, flags, o = j
            tmp = o + ".%d.tmp.o" % os.getpid()
            r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return "%s\n%s" % (src, r.stdout[-4000:])
            os.replace(tmp, o)
            return None
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, self.jobs) if e]
        self.jobs = []
        if errs:
            raise BuildError("\n".join(errs))

    @staticmethod
    def link(out, args, deps):
        key = hashlib.sha256(repr((args, deps)).encode()).hexdigest()
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            return
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + args + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=OUT)
        if r.returncode:
            raise BuildError("link %s\n%s" % (out, r.stdout[-4000:]))
        os.replace(tmp, out)
        with open(stamp, "w") as f:
            f.write(key)

    def sim_objs(self):
        return [self.obj(VERIF + "/sim/%s.cpp" % f, SIMFLAGS, self.simh) for f in ("engine", "tsanrt", "mem", "os", "jit")]

    def wrapflags(self):
        return ["-Wl,--wrap=" + w for w in open(VERIF + "/harness/wraps.txt").read().split()]

    def link_sim(self, objs):
        self.link(OUT + "/libsim.so", ["-shared", "-Wl,-soname,libsim.so"] + objs + ["-lpthread", "-lrt"], objs)
        with open(OUT + "/ver.map", "w") as f:
            f.write("{ global: glue_api; glue_e2e_api; local: *; };\n")

    def link_sut(self, name, objs, plain=()):
        self.link(OUT + "/" + name, ["-shared", "-static-libstdc++"] + list(objs) + list(plain) + self.wrapflags() +
                  ["-Wl,--version-script=" + OUT + "/ver.map", "-L" + OUT, "-lsim", "-Wl,-z,defs", "-Wl,-z,now", "-lpthread", "-lrt", "-Wl,-rpath,$ORIGIN"],
                  [list(objs), list(plain), open(VERIF + "/harness/wraps.txt").read()])


def core_sources():
    """Every source file of the library (Factory.cpp is a leftover no build compiles)."""
    return [p for p in sorted(glob.glob(REPO + "/src/core/*.cpp")) if os.path.basename(p) != "Factory.cpp"]


def build_tree():
    b = Builder()
    sim = b.sim_objs()
    h = [b.obj(VERIF + "/harness/%s.cpp" % f, HARNFLAGS, b.simh) for f in ("common", "tree")]
    sut = {}
    for v, d in (("nonrec", []), ("rec", ["-DVAR_REC=1"]), ("py", ["-DPYCENTAURUS=1"])):
        sut[v] = b.obj(VERIF + "/harness/glue_tree.cpp", SUTFLAGS + TSAN + d + ["-I" + REPO + "/src/core", "-I" + VERIF + "/harness"], b.simh + b.repoh)
    b.compile()
    b.link_sim(sim)
    for v in sut:
        b.link_sut("libsut_%s.so" % v, [sut[v]])
    b.link(OUT + "/simtree", h + ["-L" + OUT, "-lsim", "-Wl,-rpath,$ORIGIN", "-rdynamic", "-ldl", "-lpthread"], h)
    return OUT + "/simtree"


def build_e2e():
    b = Builder()
    sim = b.sim_objs()
    h = [b.obj(VERIF + "/harness/%s.cpp" % f, HARNFLAGS, b.simh) for f in ("common", "e2e", "gram")]
    inc = ["-I" + REPO + "/src/core", "-I" + VERIF + "/harness", "-I" + VERIF + "/sim", "-include", VERIF + "/sim/simbank.h", "-DCENTAURUS_SIM_BANK_SIZE=sim_bank_size"]
    sut = [b.obj(VERIF + "/harness/%s.cpp" % f, SUTFLAGS + TSAN + inc, b.simh + b.repoh) for f in ("glue_tree", "glue_e2e")]
    # generator and grammar code only runs before the simulation starts
    plain = [b.obj(p, SUTFLAGS + inc, b.simh + b.repoh) for p in core_sources()]
    # ... except where loading itself is what is simulated
    load = [b.obj(p, SUTFLAGS + TSAN + inc, b.simh + b.repoh) for p in core_sources()]
    b.compile()
    b.link_sim(sim)
    b.link_sut("libsut_e2e.so", sut, plain)
    b.link_sut("libsut_load.so", sut, load)
    b.link(OUT + "/sime2e", h + ["-L" + OUT, "-lsim", "-Wl,-rpath,$ORIGIN", "-rdynamic", "-ldl", "-lpthread"], h)
    return OUT + "/sime2e"


def build_py():
    """The Python package on a simulated libpycentaurus.so; the "executable" is a script."""
    b = Builder()
    sim = b.sim_objs()
    hf = HARNFLAGS + ["-fPIC"]
    h = [b.obj(VERIF + "/harness/common.cpp", hf + ["-DHARNESS_MAIN=sim_main"], b.simh)] + [b.obj(VERIF + "/harness/%s.cpp" % f, hf, b.simh) for f in ("py", "gram")]
    inc = ["-I" + REPO + "/src/core", "-I" + VERIF + "/harness", "-I" + VERIF + "/sim", "-include", VERIF + "/sim/simbank.h", "-DCENTAURUS_SIM_BANK_SIZE=sim_bank_size"]
    sut = [b.obj(REPO + "/src/pydll/PyCentaurus.cpp", SUTFLAGS + TSAN + inc, b.simh + b.repoh), b.obj(VERIF + "/harness/glue_py.cpp", SUTFLAGS, b.simh)]
    plain = [b.obj(p, SUTFLAGS + inc + ["-DPYCENTAURUS=1"], b.simh + b.repoh) for p in core_sources()]
    b.compile()
    b.link_sim(sim)
    os.makedirs(OUT + "/pylib", exist_ok=True)
    w = open(VERIF + "/harness/wraps.txt").read()
    b.link(OUT + "/pylib/libpycentaurus.so", ["-shared", "-static-libstdc++", "-Wl,--exclude-libs,ALL"] + sut + plain + b.wrapflags() +
           ["-L" + OUT, "-lsim", "-Wl,-z,defs", "-Wl,-z,now", "-lpthread", "-lrt", "-Wl,-rpath,$ORIGIN/.."], [sut, plain, w])
    b.link(OUT + "/libpyharness.so", ["-shared"] + h + ["-L" + OUT, "-lsim", "-Wl,-rpath,$ORIGIN", "-ldl", "-lpthread"], h)
    with open(OUT + "/simpy", "w") as f:
        f.write("#!/bin/sh\nexec python3 -B %s %s %s \"$@\"\n" % (VERIF + "/harness/pysim.py", OUT, REPO))
    os.chmod(OUT + "/simpy", 0o755)
    return OUT + "/simpy"


BUILDERS = {"tree": build_tree, "e2e": build_e2e, "py": build_py}


def build(name):
    return BUILDERS[name]()


if __name__ == "__main__":
    for n in sys.argv[1:] or list(BUILDERS):
        print(build(n))
