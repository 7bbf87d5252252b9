#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build (content-hashed, per file)."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
CXX = "clang++"
COMMON = ["-std=c++17", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-O1", "-include", f"{V}/sim/sim_eigen.h",
          f"-I{V}/sim", f"-I{REPO}/src", "-I/usr/include/eigen3"]
INSTR = ["-fsanitize=address", "-fsanitize-coverage=trace-pc", "-gline-tables-only"]
WRAP = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "pthread_mutex_lock", "pthread_rwlock_rdlock",
        "pthread_rwlock_wrlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
        "clock_gettime", "gettimeofday", "time"]


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    lib = sorted(glob.glob(f"{REPO}/src/factorama/**/*.cpp", recursive=True))
    hdr = sorted(glob.glob(f"{REPO}/src/factorama/**/*.h*", recursive=True))
    return lib, hdr


def build(log=sys.stderr):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    lib, hdr = sources()
    shdr = glob.glob(f"{V}/sim/*.h")
    jobs = []
    order = []

    def add(src, flags, deps, late):
        h = sha([src] + deps, " ".join(flags + COMMON))
        obj = f"{B}/{os.path.basename(src)}.{h}.o"
        order.append((late, obj))
        if not os.path.exists(obj):
            jobs.append((src, flags, obj))

    for s in lib:
        add(s, INSTR, hdr + [f"{V}/sim/sim_eigen.h"], 0)
    for n in ["world", "exec_opt", "exec_own", "exec", "exec_ops", "gen", "gen_plan", "main", "seams"]:
        s = f"{V}/sim/{n}.cpp"
        d = shdr + (hdr if n != "seams" else [])
        add(s, INSTR if n == "world" else ["-g1"], d, 1 if n == "world" else 2)
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def cc(j):
        src, flags, obj = j
        r = subprocess.run([CXX] + COMMON + flags + ["-c", src, "-o", obj + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.rename(obj + ".tmp", obj)
        return src, r

    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        for src, r in ex.map(cc, jobs):
            if r.returncode:
                print(f"build of {src} failed:\n{r.stdout[-3000:]}", file=log)
                sys.exit(3)
    objs = [o for _, o in sorted(order, key=lambda x: x[0])]
    exe = f"{B}/sim." + hashlib.sha256("\n".join(objs).encode()).hexdigest()[:16]
    if not os.path.exists(exe):
        r = subprocess.run([CXX, "-fsanitize=address", "-no-pie"] + objs + ["-o", exe + ".tmp"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("link failed:\n" + r.stdout[-3000:], file=log)
            sys.exit(3)
        os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    print(build())
