#!/usr/bin/env python3
"""Builds /repo's libraries from the working tree, in one of the flavours
  mc    gcc -fsanitize=thread instrumentation, linked with mc/rt.c (scheduler)
  asan  gcc -fsanitize=address, sequential
  plain no instrumentation, sequential
and links a check's harness against them.  Everything goes to /verif/build."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
MODS = ["core", "tm", "ptrdata", "cast", "arithmetic", "libc", "libm", "libpthread", "txlib"]
DEPS = {"core": [], "tm": ["core"], "ptrdata": ["core"], "cast": ["core"], "arithmetic": ["core"],
        "libc": ["core", "tm", "ptrdata"], "libm": ["core", "tm", "ptrdata", "libc"], "libpthread": ["core"],
        "txlib": ["core"]}

SAN = {"mc": ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-DMC_TSAN"],
       "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "--param", "asan-stack=0"],
       "plain": ["-O1"]}
LINK = {"mc": [], "asan": ["-fsanitize=address"], "plain": []}
BASE = ["-g", "-pthread", "-std=gnu17", "-fno-pie", "-no-pie", "-fno-builtin-malloc", "-w"]

REDEF = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock",
         "pthread_mutex_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_rwlock_rdlock",
         "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_cond_init", "pthread_cond_destroy",
         "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast",
         "clock_gettime", "nanosleep", "sched_yield", "malloc", "free", "calloc", "realloc",
         "posix_memalign", "aligned_alloc", "malloc_usable_size"]
REDEF_TSAN = ["memcpy", "memmove", "memset"]


def defines():
    """the results of configure"""
    v = {}
    for l in open(VERIF + "/config/config.h"):
        f = l.split(None, 2)
        if len(f) >= 2 and f[0] == "#define":
            v[f[1]] = f[2].strip() if len(f) > 2 else ""
    return v


def config_headers(dir_):
    """generate the public configuration headers from the templates of the tree, as configure does"""
    v = defines()
    out = os.path.join(dir_, "cfg", "picotm", "config")
    os.makedirs(out, exist_ok=True)
    for t in glob.glob(REPO + "/include/picotm/config/*.in") + glob.glob(REPO + "/modules/*/include/picotm/config/*.in"):
        res = []
        for l in open(t):
            f = l.split()
            if len(f) == 2 and f[0] == "#undef":
                l = "#define %s %s\n" % (f[1], v[f[1]]) if f[1] in v else "/* #undef %s */\n" % f[1]
            res.append(l)
        with open(os.path.join(out, os.path.basename(t)[:-3]), "w") as f:
            f.write("".join(res))


def incs(dir_):
    i = ["-I" + VERIF + "/config", "-I" + dir_ + "/cfg", "-iquote", dir_ + "/cfg"]
    for d in [REPO + "/include"] + [REPO + "/modules/%s/include" % m for m in MODS if m != "core"]:
        i += ["-iquote", d]
    return i


def sources(mod):
    d = REPO + "/src" if mod == "core" else REPO + "/modules/%s/src" % mod
    return d, sorted(glob.glob(d + "/**/*.c", recursive=True))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout)
        raise SystemExit(2)


def closure(mods):
    out = []
    def add(m):
        for d in DEPS[m]:
            add(d)
        if m not in out:
            out.append(m)
    for m in mods:
        add(m)
    return out


def tree_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("/src/**/*.[ch]", "/include/**/*.h", "/modules/*/src/**/*.[ch]", "/modules/*/include/**/*.h",
                "/include/**/*.in", "/modules/*/include/**/*.in"):
        files += glob.glob(REPO + pat, recursive=True)
    files += glob.glob(VERIF + "/mc/*") + glob.glob(VERIF + "/config/**/*.h", recursive=True) + [os.path.abspath(__file__)]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def build(harness, mods, flavor="mc", extra=(), out=None, libs=(), redef=(), nosan=False):
    """returns the path of the linked binary"""
    mods = closure(mods)
    th = tree_hash()
    if redef:
        th += "-" + hashlib.sha256(" ".join(redef).encode()).hexdigest()[:4]
    extra = list(extra)
    dir_ = os.path.join(BUILD, flavor + "-" + th)
    if not os.path.isdir(dir_):
        # drop builds of other trees
        if os.path.isdir(BUILD):
            for d in os.listdir(BUILD):
                if d.startswith(flavor + "-") and th[:16] not in d:
                    subprocess.run(["rm", "-rf", os.path.join(BUILD, d)])
        os.makedirs(dir_, exist_ok=True)
        config_headers(dir_)
    jobs = []
    objs = {}
    for m in mods:
        lib = os.path.join(dir_, m + ".o")
        if os.path.exists(lib):
            continue
        d, srcs = sources(m)
        objs[m] = []
        for s in srcs:
            o = os.path.join(dir_, m + "__" + os.path.relpath(s, d).replace("/", "_") + ".o")
            objs[m].append(o)
            jobs.append(["gcc"] + BASE + SAN[flavor] + ["-std=c17", "-fvisibility=hidden", "-DHAVE_CONFIG_H",
                         "-include", "config.h", "-I", d] + incs(dir_) + ["-c", "-o", o, s])
    for s in ("engine.c", "rt.c"):
        o = os.path.join(dir_, s + ".o")
        if not os.path.exists(o):
            fl = ["-O2"] + (["-DMC_TSAN"] if flavor == "mc" else [])
            if flavor == "asan" and s == "rt.c":
                fl += ["-fsanitize=address"]
            jobs.append(["gcc"] + BASE + fl + ["-Wall", "-c", "-o", o, VERIF + "/mc/" + s])
    name = out or os.path.basename(harness).rsplit(".", 1)[0]
    ho = os.path.join(dir_, name + ".harness.o")
    jobs.append(["gcc"] + [x for x in BASE if x != "-w"] + ["-Werror=implicit-function-declaration"] + ([] if nosan else SAN[flavor]) + extra + ["-I", VERIF + "/mc", "-I", VERIF + "/checks"] + incs(dir_) + ["-c", "-o", ho, harness])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(run, jobs))
    rl = os.path.join(dir_, "redef-%s.txt" % ("x" if redef else "base"))
    with open(rl, "w") as f:
        for s in REDEF + list(redef) + (REDEF_TSAN if flavor == "mc" else []):
            f.write("%s rt_%s\n" % (s, s))
    for m in objs:
        lib = os.path.join(dir_, m + ".o")
        tmp = lib + ".tmp.o"
        run(["ld", "-r", "-o", tmp] + objs[m])
        run(["objcopy", "--localize-hidden", tmp])
        run(["objcopy", "--redefine-syms=" + rl, tmp])
        os.rename(tmp, lib)
        for o in objs[m]:
            os.unlink(o)
    exe = os.path.join(dir_, name)
    run(["gcc", "-pthread", "-no-pie", "-o", exe, ho] + [os.path.join(dir_, m + ".o") for m in mods] +
        [os.path.join(dir_, "engine.c.o"), os.path.join(dir_, "rt.c.o")] + LINK[flavor] + ["-lm"] + list(libs))
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[3:] or MODS, sys.argv[2] if len(sys.argv) > 2 else "mc"))
