"""Builds the code under test (all non-test C sources of /repo/reference/src) together with the drivers.

One build directory per instrumentation variant; ninja keeps it incremental.  Nothing is written in /repo.
Sources are found by globbing, so that files added, renamed or split by a refactoring are picked up.
"""
import glob, os, subprocess, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "reference/src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

VARIANTS = {
    # name: (repo cflags, link flags)
    "asan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=all", "-fsanitize=address,bounds"),
    "shm": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=all -DUSE_SHARED_MEMORY", "-fsanitize=address,bounds"),
    # every basic block and every memory access of the code under test is a point where its threads can be switched (clang only)
    "sched": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc,trace-loads,trace-stores -Wno-implicit-function-declaration -Wno-int-conversion -Wno-incompatible-function-pointer-types", "-fsanitize=address"),
    "tsan": ("-O1 -g -fsanitize=thread", "-fsanitize=thread"),
}
DRVFLAGS = {"asan": "-O1 -g -fsanitize=address", "shm": "-O1 -g -fsanitize=address", "sched": "-O1 -g -fsanitize=address", "tsan": "-O1 -g -fsanitize=thread"}

CC = {"sched": ("clang", "clang++")}

# C library functions whose calls *from the code under test* are routed through the driver (ld --wrap).
WRAPS = ["time", "malloc", "calloc", "realloc", "free", "strdup", "aligned_alloc", "posix_memalign", "CRYPTO_set_mem_functions",
         "video_output_poll", "transport_authenticate_caller", "ta_invoke_command",
         "mtx_lock", "mtx_unlock", "mtx_trylock", "mtx_destroy", "mtx_init", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy",
         "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "call_once", "pthread_once", "cnd_wait", "pthread_cond_wait", "sleep", "usleep", "nanosleep", "thrd_yield", "sched_yield", "thrd_sleep"]

def repo_sources():
    out = []
    for d in ("taimpl/src", "clientimpl/src", "util/src", "client/src"):
        for f in glob.glob(os.path.join(SRC, d, "**", "*.c"), recursive=True):
            out.append(f)
    return sorted(out)

def repo_includes():
    inc = []
    for d in ("client/include", "client/src", "util/include", "taimpl/include", "taimpl/include/internal", "taimpl/include/porting", "clientimpl/src", "clientimpl/src/internal", "clientimpl/src/porting"):
        p = os.path.join(SRC, d)
        if os.path.isdir(p): inc.append("-I" + p)
    return " ".join(inc)

REPO_DEFS = "-D_GNU_SOURCE -DENABLE_SOC_KEY_TESTS -DVERIF_BUILD"

def write_ninja(variant, drivers):
    """drivers: list of .cpp files (relative to /verif/driver), each a program."""
    cf, lf = VARIANTS[variant]
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    inc = repo_includes()
    wraps = " ".join("-Wl,--wrap=" + w for w in WRAPS)
    cc, cxx = CC.get(variant, ("gcc", "g++"))
    lines = [
        "builddir = .",
        "rule cc\n command = " + cc + " -std=gnu11 -w $cflags -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
        "rule cxx\n command = " + cxx + " -std=gnu++17 -w $cflags -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
        "rule ar\n command = rm -f $out && ar crs $out @$out.rsp\n rspfile = $out.rsp\n rspfile_content = $in",
        "rule fault\n command = python3 %s/lib/mkfault.py $in $out" % HERE,
        "rule link\n command = " + cxx + " $lf -o $out $objs @$fault.flags %s -Wl,--start-group $lib -Wl,--end-group -lssl -lcrypto -lyajl -lpthread -lm $lf" % wraps,
    ]
    objs = []
    for s in repo_sources():
        o = "repo/" + os.path.relpath(s, SRC).replace("/", "__") + ".o"
        objs.append(o)
        lines.append("build %s: cc %s\n cflags = %s %s %s" % (o, s, cf, REPO_DEFS, inc))
    lines.append("build librepo.a: ar " + " ".join(objs))
    lines.append("build fault.s | fault.s.flags: fault librepo.a")
    lines.append("build fault.o: cc fault.s\n cflags = -x assembler")
    common = []
    for s in sorted(glob.glob(os.path.join(HERE, "driver/common/*.cpp"))):
        o = "drv/common__" + os.path.basename(s) + ".o"
        common.append(o)
        lines.append("build %s: cxx %s\n cflags = %s -I%s/driver %s %s -DVARIANT_%s" % (o, s, DRVFLAGS[variant], HERE, REPO_DEFS, inc, variant))
    for d in drivers:
        o = "drv/" + d + ".o"
        lines.append("build %s: cxx %s/driver/%s\n cflags = %s -I%s/driver %s %s -DVARIANT_%s" % (o, HERE, d, DRVFLAGS[variant], HERE, REPO_DEFS, inc, variant))
        exe = d[:-4]
        lines.append("build %s: link | %s %s fault.o fault.s.flags librepo.a\n objs = %s %s fault.o\n fault = fault.s\n lib = librepo.a\n lf = %s" %
                     (exe, o, " ".join(common), o, " ".join(common), lf))
    txt = "\n".join(lines) + "\n"
    p = os.path.join(bd, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    return bd

def build(variant, drivers):
    allp = sorted(os.path.basename(p) for p in glob.glob(os.path.join(HERE, "driver/*.cpp")))
    bd = write_ninja(variant, allp)
    r = subprocess.run(["ninja", "-C", bd] + [d[:-4] if d.endswith(".cpp") else d for d in drivers], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        i = r.stdout.find("FAILED"); o = r.stdout[i:] if i >= 0 else r.stdout
        sys.stderr.write("\n".join(l[:300] for l in o.splitlines()[:60] if not l.startswith(("gcc ", "g++ ", "clang "))) + "\n")
        raise RuntimeError("build of variant %s fails" % variant)
    ks = os.path.join(REPO, "reference/test/root_keystore.p12")
    dst = os.path.join(bd, "root_keystore.p12")
    data = open(ks, "rb").read()
    if not os.path.exists(dst) or open(dst, "rb").read() != data:
        open(dst, "wb").write(data)
    return bd

if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:])
