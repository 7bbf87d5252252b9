#!/usr/bin/env python3
"""Builds the Python package of /repo's working tree with ASan into /verif/build/py-<hash>/factorama."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B0  # noqa: E402

V, REPO, B = B0.V, B0.REPO, B0.B
CXX = "clang++"
PB = f"{REPO}/python_bindings/python"
PY = "/usr/bin/python3"
FLAGS = ["-std=c++17", "-DNDEBUG", "-O1", "-fPIC", "-w", "-fno-omit-frame-pointer", "-gline-tables-only", "-fsanitize=address", "-shared-libasan",
         f"-I{REPO}/src", "-I/usr/include/eigen3", f"-I{PB}", "-I/usr/include/python3.12"]
WRAP = ["malloc", "free", "realloc", "_Znwm", "_Znam"]


def asan_rt():
    r = subprocess.run([CXX, "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return r if os.path.exists(r) else "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"


def build(log=sys.stderr):
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lockpy"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    lib, hdr = B0.sources()
    binds = sorted(glob.glob(f"{PB}/**/*.cpp", recursive=True))
    ph = sorted(glob.glob(f"{PB}/**/*.h*", recursive=True))
    jobs, objs = [], []
    for s in lib + binds + [f"{V}/pysim/hook.cpp"]:
        fl = [f for f in FLAGS if not (s.endswith("hook.cpp") and "sanitize" in f)]
        h = B0.sha([s] + hdr + (ph if s in binds else []), " ".join(fl))
        o = f"{B}/py.{os.path.basename(s)}.{h}.o"
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, fl, o))

    def cc(j):
        s, fl, o = j
        r = subprocess.run([CXX] + fl + ["-c", s, "-o", o + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.rename(o + ".tmp", o)
        return s, r
    jobs.sort(key=lambda j: j[0] not in binds)
    with ThreadPoolExecutor(os.cpu_count() or 2) as ex:
        for s, r in ex.map(cc, jobs):
            if r.returncode:
                print(f"build of {s} failed:\n{r.stdout[-3000:]}", file=log)
                sys.exit(3)
    pys = sorted(glob.glob(f"{PB}/factorama/*.py"))
    d = f"{B}/py-" + B0.sha(pys, "\n".join(objs))
    if not os.path.exists(d + "/ok"):
        os.makedirs(d + "/factorama", exist_ok=True)
        for p in pys:
            shutil.copy(p, d + "/factorama")
        so = f"{d}/factorama/_factorama" + sysconfig.get_config_var("EXT_SUFFIX")
        r = subprocess.run([CXX, "-shared", "-fsanitize=address", "-shared-libasan"] + objs + ["-o", so] + ["-Wl,--wrap=" + w for w in WRAP],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("link failed:\n" + r.stdout[-3000:], file=log)
            sys.exit(3)
        open(d + "/ok", "w").close()
    return d


def env(d, symbolize=False, hashseed="0"):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LD_PRELOAD": asan_rt(), "PYSIM_MOD": d, "PYTHONMALLOC": "malloc",
         "PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
         "ASAN_OPTIONS": "exitcode=76:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:symbolize=%d:print_legend=0:max_free_fill_size=4096:free_fill_byte=221"
                         ":max_malloc_fill_size=4096:malloc_fill_byte=123:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:quarantine_size_mb=32" % symbolize}
    if symbolize:
        for p in ("/usr/lib/llvm-18/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18", "/usr/bin/llvm-symbolizer"):
            if os.path.exists(p):
                e["ASAN_SYMBOLIZER_PATH"] = p
                break
    return e


if __name__ == "__main__":
    print(build())
