"""Running TLC."""
import os, re, subprocess, tempfile, shutil, json, time
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    pass


def run(module, cfg=None, env=None, args=(), timeout=800, heap="6g", workers=8, cfgtext=None, keep=None):
    """Run TLC on a module of /verif/spec; returns Result(rc, out, states, distinct, violated, printed)."""
    work = os.path.join(VERIF, ".work")
    os.makedirs(work, exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc", dir=work)
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copyfile(os.path.join(SPEC, f), os.path.join(d, f))
        cfgname = cfg or (module + ".cfg")
        if cfgtext is not None:
            cfgname = "run.cfg"
            with open(os.path.join(d, cfgname), "w") as f:
                f.write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(d, "st"),
               "-workers", str(workers), "-config", cfgname] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on " + module)
        r = Result()
        r.rc, r.out, r.wall = p.returncode, p.stdout.decode("utf-8", "replace"), time.time() - t0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
        r.states, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        r.kept = open(os.path.join(d, keep)).read() if keep and os.path.exists(os.path.join(d, keep)) else ""
        r.files = {f: open(os.path.join(d, f)).read() for f in os.listdir(d) if f.startswith("behaviour_")}
        r.violated = "is violated" in r.out or "violated" in r.out and r.rc in (12, 13)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


TAG = re.compile(r'<<\s*"TAGS",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>')


def validate(records, module="WorkerTrace", timeout=800):
    """Check scenario records against a trace specification.

    -> (tags, stats): tags = {scenario id: [(event index, {properties})]}"""
    work = os.path.join(VERIF, ".work")
    os.makedirs(work, exist_ok=True)
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=work)
    try:
        with os.fdopen(fd, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        r = run(module, env={"TRACES": path, "PROP": ""}, timeout=timeout)
        flat = re.sub(r"\s*\n\s+", " ", r.out)          # TLC wraps long values
        done = {int(a): int(b) for a, b in DONE.findall(flat)}
        if r.rc != 0 or "Model checking completed. No error" not in r.out:
            raise TlcError("%s: TLC failed (%d)\n%s" % (module, r.rc, r.out[:200] + "\n".join(x for x in r.out.splitlines() if "rror" in x or "ttempt" in x)[:2500] + r.out[-1500:]))
        for x in records:
            if done.get(x["id"]) != len(x["ev"]):
                raise TlcError("%s: scenario %d was not consumed to its end" % (module, x["id"]))
        if flat.count('"TAGS"') != len(TAG.findall(flat)):
            raise TlcError("%s: unreadable output" % module)
        tags = {}
        for a, b, s in TAG.findall(flat):
            tags.setdefault(int(a), []).append((int(b), set(re.findall(r'"([^"]+)"', s))))
        for v in tags.values():
            v.sort(key=lambda x: x[0])
        st = {"states": r.states, "distinct": r.distinct, "wall": r.wall}
        return tags, st
    finally:
        os.unlink(path)
