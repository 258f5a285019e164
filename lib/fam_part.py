"""Executions of single parts of the program, judged by PartTrace."""
import os, json, subprocess, shutil, random
from concurrent.futures import ThreadPoolExecutor
import build

MODULE = "PartTrace"


class PartScenario:
    def __init__(self, part, name, script, keys=None):
        self.part, self.name, self.script, self.keys = part, name, list(script), keys or []
        self.meta = {}

    def dump(self):
        return {"part": self.part, "name": self.name, "script": self.script, "keys": [k.hex() for k in self.keys]}


def load(d):
    return PartScenario(d["part"], d["name"], d["script"], [bytes.fromhex(k) for k in d["keys"]])


class HarnessError(Exception):
    pass


def _run(exe, scs, d):
    os.makedirs(d)
    with open(os.path.join(d, "script"), "w") as f:
        for s in scs:
            f.write("begin\n" + "\n".join(s.script) + "\n")
    out = os.path.join(d, "out")
    env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "DRV_DIR": d, "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1"}
    p = subprocess.run([exe, os.path.join(d, "script"), out], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       env=env, timeout=600)
    if p.returncode:
        raise HarnessError("%s: %d %s" % (exe, p.returncode, p.stderr[-500:].decode("latin1")))
    evs = [[] for _ in scs]
    with open(out) as f:
        for line in f:
            e = json.loads(line)
            i = e.pop("s")
            evs[i].append(e)
    for s, e in zip(scs, evs):
        if not e or e[-1]["e"] not in ("end", "crash", "hang"):
            raise HarnessError("%s: no end" % s.name)
    return evs


def record(scs, jobs=8):
    parts = {}
    for i, s in enumerate(scs):
        parts.setdefault(s.part, []).append(i)
    exes = build.build(*["drv_" + p for p in sorted(parts)])
    base = os.path.join(build.VERIF, ".work", "p%d_%d" % (os.getpid(), random.SystemRandom().randrange(1 << 30)))
    os.makedirs(base)
    try:
        work = []
        for p, idx in parts.items():
            step = max(1, (len(idx) + jobs - 1) // jobs)
            for k in range(0, len(idx), step):
                work.append((p, idx[k:k + step]))
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda w: _run(exes["drv_" + w[1][0]], [scs[i] for i in w[1][1]], os.path.join(base, "w%d" % w[0])), enumerate(work)))
        out = [None] * len(scs)
        for (p, idx), evs in zip(work, res):
            for i, e in zip(idx, evs):
                out[i] = {"id": i, "part": p, "keys": [list(k) for k in scs[i].keys], "ev": e}
        return out
    finally:
        shutil.rmtree(base, ignore_errors=True)
