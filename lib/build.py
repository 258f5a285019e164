"""Build the harness executables from the current working tree of /repo (cached by content)."""
import os, subprocess, hashlib, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BDIR = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        rel = os.path.relpath(d, REPO)
        if rel == "src/test" or rel.startswith("src/test/"):
            continue
        for f in sorted(fs):
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return out


def include_dirs():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        if any(f.endswith(".h") for f in fs):
            out.append(d)
    return out


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".h")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, base).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    with open(__file__, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin-abort",
          "-D_GNU_SOURCE", "-fstrict-aliasing"]
WRAPS = ["mem_pool_alloc", "mem_pool_free", "sys_alloc", "sys_free", "SSL_new", "SSL_free"]
LIBS = ["-lssl", "-lcrypto", "-lpthread", "-lm", "-ldl"]

VARIANTS = {
    # whole program, memory pool replaced by checked heap blocks
    "simh": dict(flags=["-fsanitize=address", "-DSIM_HEAP"], harness=["sim.c"], wraps=WRAPS, main=True),
    # whole program, everything real
    "simp": dict(flags=[], harness=["sim.c"], wraps=WRAPS, main=True),
    # drivers of single parts
    "drv_ring": dict(flags=["-fsanitize=address"], harness=["drv_ring.c"], wraps=[], main=True),
    "drv_map": dict(flags=["-fsanitize=address"], harness=["drv_map.c"], wraps=[], main=True),
    "drv_tree": dict(flags=["-fsanitize=address"], harness=["drv_tree.c"], wraps=[], main=True, instead=["-DNO_PARENT"]),
    "drv_pool": dict(flags=["-fsanitize=address"], harness=["drv_pool.c"], wraps=[], main=True),
    "drv_timer": dict(flags=["-fsanitize=address"], harness=["drv_timer.c"], wraps=[], main=True),
    "drv_seq": dict(flags=["-fsanitize=address"], harness=["drv_seq.c"], wraps=[], main=True),
    "drv_log": dict(flags=["-fsanitize=address"], harness=["drv_log.c"], wraps=["fopen"], main=True),
    "drv_ac": dict(flags=["-fsanitize=address"], harness=["drv_ac.c"], wraps=[], main=True),
}


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd[-6:]), p.stdout[-3000:]))


def build(*names):
    """Return {variant: path of executable}; builds what is missing."""
    os.makedirs(BDIR, exist_ok=True)
    h = tree_hash()
    d = os.path.join(BDIR, h)
    res = {n: os.path.join(d, n) for n in names}
    lock = open(os.path.join(BDIR, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.isdir(d):
            _prune(h)
            os.makedirs(d, exist_ok=True)
        incs = ["-I" + i for i in include_dirs()]
        for n in names:
            if os.path.exists(res[n]):
                continue
            v = VARIANTS[n]
            od = os.path.join(d, n + ".o")
            os.makedirs(od, exist_ok=True)
            jobs, objs = [], []
            for i, s in enumerate(repo_sources()):
                o = os.path.join(od, "%02d_%s.o" % (i, os.path.basename(s)[:-2]))
                extra = ["-Dmain=s5_main"] if os.path.basename(s) == "main.c" else []
                jobs.append(["gcc"] + COMMON + v["flags"] + extra + incs + ["-c", s, "-o", o])
                objs.append(o)
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(_run, jobs))
            for s in v["harness"]:
                o = os.path.join(od, "h_" + s[:-2] + ".o")
                cmd = ["gcc"] + COMMON + v["flags"] + incs + ["-I" + os.path.join(VERIF, "harness"), "-c", os.path.join(VERIF, "harness", s), "-o", o]
                try:
                    _run(cmd)
                except BuildError:
                    if "instead" not in v:
                        raise
                    _run(cmd + v["instead"])
                objs.append(o)
            link = ["gcc"] + v["flags"] + objs + ["-rdynamic"] + ["-Wl,--wrap=" + w for w in v["wraps"]] + LIBS + ["-o", res[n] + ".tmp"]
            _run(link)
            os.rename(res[n] + ".tmp", res[n])
            for o in objs:
                os.unlink(o)
            os.rmdir(od)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return res


def _prune(keep):
    import shutil
    ds = sorted((os.path.getmtime(os.path.join(BDIR, x)), x) for x in os.listdir(BDIR)
                if os.path.isdir(os.path.join(BDIR, x)))
    for _, x in ds[:-6]:
        if x != keep:
            shutil.rmtree(os.path.join(BDIR, x), ignore_errors=True)


if __name__ == "__main__":
    print(build(*(sys.argv[1:] or ["simh", "simp"])))
