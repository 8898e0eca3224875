"""Content-addressed incremental build of /repo's library and of the harnesses.

Objects live in /verif/.build/<flavour>.  An object is reused only if the
command and the contents of every file it was compiled from (its depfile) are
unchanged, so the result always reflects /repo's current working tree.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SKIP = ("xmltest.cpp", "LinearSolverAGMG.cpp", "LinearSolverIstl.cpp")   # need AGMG / DUNE; not built by the repo here either
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,float-cast-overflow,null,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "clang": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1"] + SAN + ["-fno-sanitize=function"]),
    "gcc": dict(cc="gcc", cxx="g++", flags=["-O1", "-g1"] + SAN),
    "fuzz": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-fsanitize=fuzzer-no-link"] + SAN + ["-fno-sanitize=function"]),
}
LIBS = ["-lboost_date_time", "-lboost_filesystem", "-lboost_system", "-lumfpack", "-lamd", "-llapack", "-lblas", "-lm", "-lsuitesparseconfig", "-lrt"]


class BuildError(Exception):
    pass


_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = "missing"
    return _hash[p]


def lib_sources():
    txt = open(os.path.join(REPO, "CMakeLists_files.cmake")).read()
    m = re.search(r"APPEND\s+MAIN_SOURCE_FILES(.*?)\)", txt, re.S)
    out = [s for s in m.group(1).split() if s.endswith((".c", ".cpp")) and os.path.basename(s) not in SKIP]
    return [s for s in out if os.path.exists(os.path.join(REPO, s))]


def compile_one(fl, src, obj, extra):
    f = FLAVOURS[fl]
    c = src.endswith(".c")
    cmd = [f["cc"], "-std=gnu99", "-DUF_long=long"] if c else [f["cxx"]]
    cmd += f["flags"] + ["-w", "-DDEBUG", "-DHAVE_CONFIG_H=1", "-I" + os.path.join(VERIF, "engine"), "-I" + REPO, "-I/usr/include/suitesparse"] + extra
    dep, sig = obj + ".d", obj + ".sig"
    full = cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    try:
        old = json.load(open(sig))
        if os.path.exists(obj) and old["cmd"] == full and all(fhash(p) == h for p, h in old["deps"].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    p = subprocess.run(full, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return "%s\n%s" % (src, p.stdout[-3000:])
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = sorted(set(os.path.normpath(os.path.join(REPO, d)) for d in deps if not d.startswith("/usr/")))
    with open(sig, "w") as fo:
        json.dump({"cmd": full, "deps": {d: fhash(d) for d in deps}}, fo)
    return None


def compile_all(fl, jobs):
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(fl, *j), jobs) if e]
    if errs:
        raise BuildError("compilation failed (%s):\n%s" % (fl, "\n".join(errs[:3])))


def build(names, fl):
    """Build harness binaries; returns {name: path}."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(OUT, fl)
        jobs, libobjs = [], []
        for s in lib_sources():
            o = os.path.join(d, "lib", s.replace("/", "__") + ".o")
            libobjs.append(o)
            jobs.append((os.path.join(REPO, s), o, [] if s.endswith(".c") else ["-std=gnu++11"]))
        fuzz = fl == "fuzz"
        eng = os.path.join(d, "engine", "fuzzmain.o" if fuzz else "pbt.o")
        jobs.append((os.path.join(VERIF, "engine", "fuzzmain.cpp" if fuzz else "pbt.cpp"), eng, ["-std=gnu++14"]))
        hobj = {}
        for n in names:
            hobj[n] = os.path.join(d, "harness", n + ".o")
            # harnesses first: they are the slowest
            jobs.insert(0, (os.path.join(VERIF, "harness", n + ".cpp"), hobj[n], ["-std=gnu++14"]))
        compile_all(fl, jobs)
        res = {}
        f = FLAVOURS[fl]
        libkey = hashlib.sha256("".join(fhash_file(o) for o in libobjs).encode()).hexdigest()
        lib = os.path.join(d, "libopm.a")
        if not (os.path.exists(lib) and read(lib + ".key") == libkey):
            if os.path.exists(lib):
                os.unlink(lib)
            p = subprocess.run(["ar", "qcs", lib] + libobjs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError("ar: " + p.stdout)
            open(lib + ".key", "w").write(libkey)
        for n in names:
            exe = os.path.join(d, "bin", n)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            m = re.search(r"^// link: (.*)$", open(os.path.join(VERIF, "harness", n + ".cpp")).read(), re.M)
            ldextra = m.group(1).split() if m else []
            key = libkey + fhash_file(hobj[n]) + fhash_file(eng)
            if not (os.path.exists(exe) and read(exe + ".key") == key):
                p = subprocess.run([f["cxx"]] + [x for x in f["flags"] if x != "-fsanitize=fuzzer-no-link"] + (["-fsanitize=fuzzer"] if fuzz else [])
                                   + ldextra + [hobj[n], eng, lib] + LIBS + ["-o", exe],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if p.returncode != 0:
                    raise BuildError("link of %s failed:\n%s" % (n, p.stdout[-3000:]))
                open(exe + ".key", "w").write(key)
            res[n] = exe
        return res


def fhash_file(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def read(p):
    try:
        return open(p).read()
    except OSError:
        return None


def build_any(names):
    try:
        return build(names, "clang")
    except BuildError as e:
        if os.environ.get("VERIF_NOFALLBACK"):
            raise
        sys.stderr.write("clang build failed, falling back on gcc:\n%s\n" % e)
        _hash.clear()
        return build(names, "gcc")
