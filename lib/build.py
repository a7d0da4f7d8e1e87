"""Content-addressed build of /repo's sources and the harnesses.

Objects are looked up by the compile command and the contents of every file
the compiler read the last time (from its dependency file), so a stale object
is never used, whatever the time stamps say.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
MULTI = "/usr/lib/x86_64-linux-gnu"

CONFIGS = {
    "complex": dict(defs=["-DHPGEM_USE_COMPLEX_PETSC", "-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_SLEPC",
                          "-DHPGEM_USE_MPI", "-DHPGEM_USE_METIS"], kind="complex"),
    "real": dict(defs=["-DHPGEM_USE_PETSC", "-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_SLEPC",
                       "-DHPGEM_USE_MPI", "-DHPGEM_USE_METIS"], kind="real"),
    # serial, for the preprocessor
    "metis": dict(defs=["-DHPGEM_USE_METIS"], kind=None, libs=["-lmetis"]),
    # serial, no libraries: the plain kernel
    "serial": dict(defs=[], kind=None),
}


class BuildError(Exception):
    pass


def includes(cfg):
    kind = CONFIGS[cfg]["kind"]
    out = ["-I%s/kernel" % REPO, "-I%s/kernel/Geometry" % REPO, "-I%s/lib" % VERIF]
    if kind:
        for d in ("openmpi/include", "openmpi/include/openmpi"):
            out += ["-isystem", "%s/%s" % (MULTI, d)]
        out += ["-isystem", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-%s/include" % kind,
                "-isystem", "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-%s/include" % kind]
    return out


def libs(cfg):
    kind = CONFIGS[cfg]["kind"]
    out = CONFIGS[cfg].get("libs", []) + ["-llapack", "-lblas", "-lpthread", "-ldl", "-lstdc++fs"]
    if kind:
        out = ["/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-%s/lib/libpetsc_%s.so" % (kind, kind),
               "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-%s/lib/libslepc_%s.so" % (kind, kind),
               "-lmetis", "-L%s/openmpi/lib" % MULTI, "-lmpi_cxx", "-lmpi"] + out
    return out


_hashes = {}


def file_hash(path):
    if path not in _hashes:
        try:
            with open(path, "rb") as f:
                _hashes[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hashes[path] = None
    return _hashes[path]


def parse_deps(depfile):
    with open(depfile) as f:
        txt = f.read()
    txt = txt.split(":", 1)[1].replace("\\\n", " ")
    return [os.path.abspath(p) for p in txt.split()
            if os.path.abspath(p).startswith((REPO + "/", VERIF + "/"))]


def compile_one(src, cfg, std, extra):
    cmd = ["g++", "-std=" + std, "-O1", "-g0", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS",
           "-DHPGEM_FORCE_ASSERTS", "-DHPGEM_LOGLEVEL=Log::DEFAULT"] + \
        CONFIGS[cfg]["defs"] + includes(cfg) + extra + os.environ.get("VERIF_CXXFLAGS", "").split() + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24]
    base = os.path.join(BUILD, "obj", key)
    index = base + ".json"
    entries = []
    if os.path.exists(index):
        try:
            with open(index) as f:
                entries = json.load(f)
        except ValueError:
            entries = []
    for e in entries:
        if os.path.exists(e["obj"]) and all(file_hash(p) == h for p, h in e["deps"]):
            return e["obj"]
    tmp = base + ".tmp.%d" % os.getpid()
    r = subprocess.run(cmd + ["-MMD", "-MF", tmp + ".d", "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        for x in (".d", ".o"):
            if os.path.exists(tmp + x):
                os.unlink(tmp + x)
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    deps = [[p, file_hash(p)] for p in parse_deps(tmp + ".d")]
    os.unlink(tmp + ".d")
    h = hashlib.sha256(json.dumps(deps).encode()).hexdigest()[:16]
    obj = base + "-" + h + ".o"
    os.replace(tmp + ".o", obj)
    entries = [e for e in entries if e["obj"] != obj]
    entries.insert(0, {"obj": obj, "deps": deps})
    for e in entries[4:]:
        if os.path.exists(e["obj"]):
            os.unlink(e["obj"])
    entries = entries[:4]
    with open(index + ".tmp", "w") as f:
        json.dump(entries, f)
    os.replace(index + ".tmp", index)
    return obj


def repo_sources(patterns):
    out = []
    for p in patterns:
        neg = p.startswith("!")
        found = sorted(glob.glob(os.path.join(REPO, p.lstrip("!")), recursive=True))
        if neg:
            out = [f for f in out if f not in found]
        else:
            out += [f for f in found if f not in out]
    return out


def build(name, cfg, sources, harness, extra=()):
    """Returns the path of the linked harness."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _hashes.clear()
        jobs = [(s, "gnu++17" if "gnu++17" in extra else "gnu++14", []) for s in repo_sources(sources)]
        ex = [e for e in extra if e.startswith("-")]
        ex = [e.replace("@REPO@", REPO) for e in ex]
        jobs = [(s, std, ex) for s, std, _ in jobs]
        jobs += [(os.path.join(VERIF, h), "gnu++17", ex) for h in harness]
        # the slow ones first
        jobs.sort(key=lambda j: (0 if "/harness/" in j[0] else 1, -os.path.getsize(j[0])))
        n = len(os.sched_getaffinity(0))
        with concurrent.futures.ThreadPoolExecutor(n) as pool:
            objs = list(pool.map(lambda j: compile_one(j[0], cfg, j[1], j[2]), jobs))
        objs = sorted(objs)
        link = ["g++", "-fuse-ld=gold"] + objs + libs(cfg) + os.environ.get("VERIF_LDFLAGS", "").split()
        h = hashlib.sha256(("\0".join(link) + "".join(file_hash(o) or "" for o in objs)).encode()).hexdigest()[:16]
        binary = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, cfg, h))
        if not os.path.exists(binary):
            for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (name, cfg))):
                os.unlink(old)
            r = subprocess.run(link + ["-o", binary + ".tmp"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode:
                raise BuildError("link of %s\n%s" % (name, r.stdout[-6000:]))
            os.replace(binary + ".tmp", binary)
        return binary
