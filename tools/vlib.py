"""Building blocks shared by setup and the checks: everything is compiled into
/verif/build from the current sources of /repo and /verif."""
import glob, hashlib, json, os, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(BUILD, "gen")
ENGINE = os.path.join(BUILD, "symx")
CLANG = "/usr/bin/clang++"
LLVM = "/usr/lib/llvm-18/bin"
JOBS = 8
UB = ["-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,float-cast-overflow,return,unreachable", "-fsanitize-trap=all"]
BCFLAGS = ["-std=c++17", "-O1", "-gline-tables-only", "-w", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-builtin-log", "-fno-builtin-pow", "-fno-strict-aliasing", "-ffp-contract=off", "-DGOOGLE_PROTOBUF_NO_RDTSC"]
PROTOS = """google/api/servicecontrol/v1/service_controller google/api/servicecontrol/v1/operation
google/api/servicecontrol/v1/quota_controller google/api/servicecontrol/v1/metric_value
google/api/servicecontrol/v1/distribution google/api/servicecontrol/v1/check_error
google/api/servicecontrol/v1/log_entry google/api/annotations google/api/http google/api/launch_stage
google/api/metric google/api/label google/rpc/status google/logging/type/log_severity google/type/money""".split()
WKT = ["any", "duration", "struct", "timestamp"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed (%d): %s\n%s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
    return r.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def stamped(path, key, build):
    """Run build() unless the stamp of `path` matches key."""
    st = path + ".stamp"
    if os.path.exists(st) and (os.path.exists(path)) and open(st).read() == key:
        return False
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".lock", "w") as f:      # one builder at a time, be it a thread or a process
        fcntl.flock(f, fcntl.LOCK_EX)
        if os.path.exists(st) and os.path.exists(path) and open(st).read() == key:
            return False
        build()
        tmp = "%s.%d" % (st, os.getpid())
        open(tmp, "w").write(key)
        os.rename(tmp, st)
    return True


class Lock:
    def __init__(self, name="build.lock"):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def pmap(f, xs):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(f, xs))


def ensure_gen():
    desc = os.path.join(VERIF, "support", "googleapis.desc")
    out = os.path.join(GEN, "done")

    def build():
        os.makedirs(GEN, exist_ok=True)
        run(["protoc", "-I/usr/include", "--include_imports", "--descriptor_set_out=" + GEN + "/wkt.desc"] +
            ["google/protobuf/%s.proto" % w for w in WKT + ["descriptor"]])
        run(["protoc", "--descriptor_set_in=%s/wkt.desc:%s" % (GEN, desc), "--cpp_out=" + GEN] + [p + ".proto" for p in PROTOS])
        w = os.path.join(BUILD, "wkt")
        os.makedirs(w, exist_ok=True)
        run(["protoc", "-I/usr/include", "--cpp_out=" + w] + ["google/protobuf/%s.proto" % x for x in WKT])
        open(out, "w").write("ok")
    stamped(out, digest([desc]), build)


def ensure_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("engine.cc", "expr.cc", "expr.h", "state.h")]

    def build():
        fl = [x for x in run([LLVM + "/llvm-config", "--cxxflags"]).split() if not x.startswith("-std") and x != "-fno-exceptions"]
        objs = []

        def one(n):
            o = os.path.join(BUILD, n + ".o")
            run(["g++", "-std=c++17", "-O2", "-w"] + fl + ["-fexceptions", "-c", os.path.join(VERIF, "engine", n), "-o", o])
            return o
        objs = pmap(one, ["engine.cc", "expr.cc"])
        tmp = ENGINE + ".tmp"
        run(["g++"] + objs + ["-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        os.rename(tmp, ENGINE)
    stamped(ENGINE, digest(src), build)


def pb_sources():
    return [os.path.join(GEN, p + ".pb.cc") for p in PROTOS]


def wkt_sources():
    return [os.path.join(BUILD, "wkt", "google/protobuf", w + ".pb.cc") for w in WKT]


def ensure_pb_bc():
    out = os.path.join(BUILD, "pb.bc")
    srcs = pb_sources() + wkt_sources()

    def build():
        d = os.path.join(BUILD, "pbbc")
        os.makedirs(d, exist_ok=True)

        def one(s):
            o = os.path.join(d, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".bc")
            run([CLANG] + BCFLAGS + ["-DPROTOBUF_INTERNAL_SKIP", "-I" + GEN, s, "-o", o])
            return o
        objs = pmap(one, srcs)
        run([LLVM + "/llvm-link"] + objs + ["-o", out])
    stamped(out, digest(srcs, " ".join(BCFLAGS)), build)
    return out


def ensure_models():
    src = sorted(glob.glob(os.path.join(VERIF, "models", "*.cc")))
    out = os.path.join(BUILD, "models.bc")

    def build():
        objs = pmap(lambda s: compile_bc(s, os.path.join(BUILD, "m_" + os.path.basename(s) + ".bc"), ub=False, defs=["-fno-access-control"]), src)
        run([LLVM + "/llvm-link"] + objs + ["-o", out])
    stamped(out, digest(src + [os.path.join(VERIF, "engine", "sx.h")], " ".join(BCFLAGS)), build)
    return out


def compile_bc(src, out, ub=True, defs=()):
    run([CLANG] + BCFLAGS + (UB if ub else []) + list(defs) + ["-I" + REPO, "-I" + GEN, "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness"), src, "-o", out])
    return out


def repo_sources():
    r = []
    for d in ("src", "utils"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
            if not f.endswith("_test.cc"):
                r.append(f)
    return r


def repo_files():
    r = []
    for d in ("src", "utils", "include"):
        r += [f for f in glob.glob(os.path.join(REPO, d, "*")) if f.endswith((".cc", ".h", ".inc")) and not f.endswith("_test.cc")]
    return sorted(r)


def repo_key():
    return digest(repo_files(), " ".join(BCFLAGS + UB))


def prune(base, keep=6):
    ds = sorted(glob.glob(os.path.join(base, "*")), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def ensure_repo_bc():
    key = repo_key()
    base = os.path.join(BUILD, "repo")
    d = os.path.join(base, key)
    out = os.path.join(d, "repo.bc")

    def build():
        os.makedirs(d, exist_ok=True)
        objs = pmap(lambda s: compile_bc(s, os.path.join(d, os.path.basename(s) + ".bc")), repo_sources())
        run([LLVM + "/llvm-link"] + objs + ["-o", out])
        prune(base)
    stamped(out, key, build)
    return out, key


def harness_files():
    return sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))) + [os.path.join(VERIF, "engine", "sx.h")]


def harness_bc(name, defs=()):
    """Link harness + repo + models + protobuf into one module; returns its path."""
    repo, key = ensure_repo_bc()
    src = os.path.join(VERIF, "harness", name + ".cc")
    tag = hashlib.sha256(" ".join(defs).encode()).hexdigest()[:6] if defs else "0"
    d = os.path.dirname(repo)
    out = os.path.join(d, "h_%s_%s.bc" % (name, tag))
    k = digest([src] + harness_files(), key + open(os.path.join(BUILD, "models.bc.stamp")).read() + open(os.path.join(BUILD, "pb.bc.stamp")).read())

    def build():
        h = os.path.join(d, "hc_%s_%s.bc" % (name, tag))
        compile_bc(src, h, defs=defs)
        tmp = out + ".l.bc"
        run([LLVM + "/llvm-link", "--only-needed", h, repo, os.path.join(BUILD, "models.bc"), os.path.join(BUILD, "pb.bc"), os.path.join(BUILD, "models.bc"), os.path.join(BUILD, "pb.bc"), "-o", tmp])
        os.rename(tmp, out)
    stamped(out, k, build)
    return out


# ---------------------------------------------------------------- native replay
SAN = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,alignment,null", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread", "-U__SANITIZE_THREAD__"],
    "plain": [],
}
WRAP = ["-Wl,--wrap=" + x for x in """pthread_mutex_lock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock
pthread_create pthread_join clock_gettime time _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv
_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE""".split()]
NATFLAGS = ["-std=c++17", "-g1", "-O1", "-w", "-fno-omit-frame-pointer", "-ffp-contract=off"]


def ensure_native_pb():
    out = os.path.join(BUILD, "libpbnative.a")

    def build():
        d = os.path.join(BUILD, "pbnat")
        os.makedirs(d, exist_ok=True)

        def one(s):
            o = os.path.join(d, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".o")
            run(["g++", "-std=c++17", "-O1", "-w", "-fPIC", "-I" + GEN, "-c", s, "-o", o])
            return o
        objs = pmap(one, pb_sources())
        if os.path.exists(out):
            os.remove(out)
        run(["ar", "rcs", out] + objs)
    stamped(out, digest(pb_sources()), build)
    return out


def ensure_native_repo(san="asan"):
    key = repo_key()
    d = os.path.join(BUILD, "repo", key)
    out = os.path.join(d, "librepo_%s.a" % san)

    def build():
        os.makedirs(d, exist_ok=True)

        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".%s.o" % san)
            run(["g++"] + NATFLAGS + SAN[san] + ["-I" + REPO, "-I" + GEN, "-c", s, "-o", o])
            return o
        objs = pmap(one, repo_sources())
        if os.path.exists(out):
            os.remove(out)
        run(["ar", "rcs", out] + objs)
    stamped(out, key, build)
    return out


def native_exe(name, san="asan", defs=()):
    key = repo_key()
    lib = ensure_native_repo(san)
    pb = ensure_native_pb()
    src = os.path.join(VERIF, "harness", name + ".cc")
    rt = os.path.join(VERIF, "engine", "native_rt.cc")
    tag = hashlib.sha256(" ".join(defs).encode()).hexdigest()[:6] if defs else "0"
    d = os.path.dirname(lib)
    out = os.path.join(d, "n_%s_%s_%s" % (name, san, tag))
    k = digest([src, rt] + harness_files(), key)

    def build():
        inc = ["-I" + REPO, "-I" + GEN, "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")]
        o = out + ".o"
        run(["g++"] + NATFLAGS + SAN[san] + list(defs) + ["-DSX_NATIVE"] + inc + ["-c", src, "-o", o])
        r = out + ".rt.o"
        run(["g++", "-std=c++17", "-g1", "-O1", "-w", "-DSX_NATIVE"] + ["-DSX_" + san.upper()] + inc + ["-c", rt, "-o", r])
        run(["g++"] + SAN[san] + WRAP + (["-Wl,--wrap=__tsan_atomic%d_store" % b for b in (8, 32, 64)] if san == "tsan" else []) + ["-rdynamic", o, r, "-o", out + ".tmp", lib, pb, "-lprotobuf", "-lcrypto", "-lpthread", "-ldl"])
        os.rename(out + ".tmp", out)
    stamped(out, k, build)
    return out


def ensure_base(native=True):
    ensure_gen()
    steps = [ensure_engine, ensure_pb_bc, ensure_models] + ([ensure_native_pb] if native else [])
    for s in steps:
        s()
