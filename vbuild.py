"""Compiles /repo's current sources plus one harness, by flavour, with a content cache.

Nothing of /repo's own build is used: every object comes from the working tree.
"""
import concurrent.futures, fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("USML_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MODULES = ["ublas", "types", "netcdf", "ocean", "threads", "beampatterns", "transmit",
           "eigenrays", "eigenverbs", "biverbs", "waveq3d", "wavegen", "managed",
           "platforms", "sensors", "rvbts"]
DEFS = ["-DBOOST_ALLOW_DEPRECATED_HEADERS", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
        "-DBOOST_UBLAS_MOVE_SEMANTICS", "-DNDEBUG"]
FLAVORS = {
    # real code under the controlled scheduler: instrumented accesses, own runtime
    "mc": dict(cxx="clang++", cflags=["-O1", "-g1", "-fsanitize=thread", "-fno-pie"],
               ldflags=["-no-pie", "-rdynamic", "-Wl,-z,now"], runtime="mc/mc_runtime.cc",
               rtflags=["-O2", "-g1", "-fno-pie", "-std=c++17", "-w"]),
    # real code under AddressSanitizer with container assertions
    "seq": dict(cxx="clang++", cflags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
                                       "-D_GLIBCXX_ASSERTIONS"],
                ldflags=["-fsanitize=address", "-rdynamic"], runtime="seq/seq_runtime.cc",
                rtflags=["-O1", "-g1", "-std=c++17", "-w", "-fsanitize=address"]),
    # real code, optimised, no sanitizer (long enumerations)
    "fast": dict(cxx="g++", cflags=["-O2", "-g1"], ldflags=["-rdynamic"],
                 runtime="seq/seq_runtime.cc", rtflags=["-O2", "-g1", "-std=c++17", "-w"]),
}
LIBS = ["-lnetcdf_c++4", "-lnetcdf", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def _sources(modules):
    out = []
    for m in modules:
        d = os.path.join(REPO, m)
        if os.path.isdir(d):
            out += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cc"))
    return out


def _header_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, m) for m in MODULES]
    files = [os.path.join(REPO, f) for f in sorted(os.listdir(REPO)) if f.endswith(".h")]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn[:] = sorted(d for d in dn if d not in ("test",))
            files += [os.path.join(dp, f) for f in sorted(fn) if f.endswith((".h", ".hpp"))]
    for d in ("mc", "seq", "harness"):
        p = os.path.join(VERIF, d)
        if os.path.isdir(p):
            files += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".h")]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(harness, flavor, modules, jobs=8, extra=(), exclude=()):
    """Returns the path of the executable."""
    os.makedirs(BUILD, exist_ok=True)
    inc = os.path.join(BUILD, "inc_" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "usml")
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(REPO, link)
    fl = FLAVORS[flavor]
    hh = _header_hash()
    data = os.path.join(BUILD, "data")
    os.makedirs(data, exist_ok=True)
    common = ["-std=c++17", "-w", "-I" + inc, "-I" + os.path.join(VERIF, "mc"),
              "-I" + os.path.join(VERIF, "seq"), "-I" + os.path.join(VERIF, "harness"),
              '-DUSML_DATA_DIR="%s"' % os.path.join(REPO, "data")] + DEFS + list(extra)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)

    def comp(src, flags):
        with open(src, "rb") as fh:
            body = fh.read()
        key = hashlib.sha256((hh + src + " ".join(flags) + fl["cxx"]).encode() + body).hexdigest()[:32]
        obj = os.path.join(objdir, "%s_%s.o" % (os.path.basename(src).replace(".cc", ""), key))
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = [fl["cxx"]] + flags + ["-c", src, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        os.rename(tmp, obj)
        return obj

    srcs = [s for s in _sources(modules) if os.path.basename(s) not in exclude]
    work = [(s, common + fl["cflags"]) for s in srcs]
    work.append((os.path.join(VERIF, "harness", harness), common + fl["cflags"]))
    work.append((os.path.join(VERIF, fl["runtime"]), fl["rtflags"] + ["-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "seq")]))
    # biggest first keeps all cores busy
    work.sort(key=lambda w: -os.path.getsize(w[0]))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda w: comp(*w), work))
    objs.sort()
    exe = os.path.join(BUILD, "%s_%s_%s" % (os.path.basename(harness).replace(".cc", ""), flavor,
                                           hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        # whole objects in a fixed order: static initialisation order is deterministic
        cmd = [fl["cxx"]] + fl["ldflags"] + objs + ["-o", tmp] + LIBS
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link failed: %s\n%s" % (" ".join(cmd)[:500], r.stderr[-3000:]))
        os.rename(tmp, exe)
    return exe


def prune(limit_mb=1500):
    """Drops the oldest cached files once the cache is larger than limit_mb."""
    fs = []
    for dp, _, fn in os.walk(BUILD):
        for f in fn:
            p = os.path.join(dp, f)
            if not os.path.islink(p):
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in fs)
    for _, size, p in sorted(fs):
        if total < limit_mb << 20:
            break
        try:
            os.unlink(p)
            total -= size
        except OSError:
            pass
