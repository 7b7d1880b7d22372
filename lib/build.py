"""Builds odc (libraries + tools) and the conformance driver from /repo's current working tree, out of tree."""
import os, subprocess, sys, hashlib, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODC_REPO", "/repo")
BUILD = os.environ.get("ODC_VBUILD", os.path.join(VERIF, ".build"))
ODC = os.path.join(BUILD, "odc")
E = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(CC="gcc", CXX="g++",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    return e


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


HOOK_DEFINE = "ODC_VERIF_HOOKS"
SAN = os.environ.get("ODC_VSAN", "")


def build(driver=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        flags = "-O1 -g0 -D%s=1 %s" % (HOOK_DEFINE, SAN)
        if not os.path.exists(os.path.join(ODC, "build.ninja")):
            shutil.rmtree(ODC, ignore_errors=True)
            _run(["cmake", "-S", REPO, "-B", ODC, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                  "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags, "-DENABLE_TESTS=OFF",
                  "-DENABLE_FORTRAN=OFF", "-Deckit_DIR=%s/lib64/cmake/eckit" % E])
        _run(["ninja", "-C", ODC, "-j8", "odc"])
        if driver:
            build_driver()
    return ODC


def libdir():
    for d in ("lib", "lib64"):
        if os.path.isdir(os.path.join(ODC, d)):
            return os.path.join(ODC, d)
    raise BuildError("no lib dir")


def build_driver():
    src = os.path.join(VERIF, "harness")
    out = os.path.join(BUILD, "drv")
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + REPO + "/src", "-I" + ODC + "/src", "-I" + E + "/include", "-I" + src]
    base = ["g++", "-std=c++17", "-O0", "-g1", "-w", "-fPIC"] + SAN.split() + inc
    # headers of the library are part of what the driver compiles against
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(REPO + "/src")):
        for f in sorted(files):
            if f.endswith((".h", ".in")):
                h.update(open(os.path.join(root, f), "rb").read())
    for f in sorted(os.listdir(src)):
        if f.endswith(".h"):
            h.update(open(os.path.join(src, f), "rb").read())
    hh = h.hexdigest()
    objs, jobs = [], []
    for f in sorted(os.listdir(src)):
        if not f.endswith(".cc"):
            continue
        p = os.path.join(src, f)
        o = os.path.join(out, f[:-3] + ".o")
        key = hashlib.sha256((hh + " ".join(base)).encode() + open(p, "rb").read()).hexdigest()
        objs.append(o)
        kf = o + ".key"
        if os.path.exists(o) and os.path.exists(kf) and open(kf).read() == key:
            continue
        jobs.append((base + ["-c", p, "-o", o], kf, key))

    def one(j):
        _run(j[0])
        open(j[1], "w").write(j[2])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    L = libdir()
    exe = os.path.join(out, "vdrv")
    if jobs or not os.path.exists(exe) or any(os.path.getmtime(os.path.join(L, l)) > os.path.getmtime(exe)
                                              for l in os.listdir(L) if l.endswith(".so")):
        _run(["g++"] + SAN.split() + ["-o", exe] + objs + ["-L" + L, "-lodccore", "-L" + E + "/lib64", "-leckit_sql", "-leckit",
              "-Wl,-rpath," + L, "-Wl,-rpath," + E + "/lib64", "-Wl,--allow-shlib-undefined", "-lpthread"])


def build_fortran():
    """The driver of the Fortran interface; odc.f90 is compiled as it is in /repo."""
    out = os.path.join(BUILD, "fdrv")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "fdrv")
    srcs = [REPO + "/src/odc/api/odc.f90", os.path.join(VERIF, "harness", "fortran", "fdrv.f90")]
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs) + libdir().encode()).hexdigest()
        kf = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
            L = libdir()
            for i, s in enumerate(srcs):
                _run(["gfortran", "-O1", "-g0", "-w", "-fPIC", "-ffree-line-length-none", "-c", s, "-o", "%s/%d.o" % (out, i)], cwd=out)
            _run(["gfortran", "-o", exe, out + "/0.o", out + "/1.o", "-L" + L, "-lodccore", "-L" + E + "/lib64", "-leckit_sql",
                  "-leckit", "-Wl,-rpath," + L, "-Wl,-rpath," + E + "/lib64", "-Wl,--allow-shlib-undefined"])
            open(kf, "w").write(key)
    return exe


def driver_path():
    return os.path.join(BUILD, "drv", "vdrv")


def odc_tool():
    return os.path.join(ODC, "bin", "odc")


if __name__ == "__main__":
    try:
        build()
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
