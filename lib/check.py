"""Decides one property: design models with TLC, then executions of the real
program (or of one of its parts) validated against the specification.

usage: check.py <property>         (VERIF_SEED, VERIF_TIER)
       check.py --replay <file>"""
import os, re, sys, json, time, random, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import build, sim, proj, tlc, registry

VERIF = build.VERIF
ASSUME = {
    "worker": ["operating system calls are those of the simulator: sockets, epoll (edge triggered), clock and files; bytes, readiness and time behave as documented for Linux",
               "OpenSSL and libc are as installed; the peers' TLS is OpenSSL too",
               "only executions that were generated are covered: VERIF_SEED selects them"],
    "master": ["fork, kill, waitpid and signal delivery are those of the simulator; workers do nothing but run and die when it says so",
               "fork does not fail",
               "only executions that were generated are covered: VERIF_SEED selects them"],
    "part": ["the part is driven through its own interface, in one process",
             "only executions that were generated are covered: VERIF_SEED selects them"],
}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                body = line.split(" ", 2)[2]
                key, what = body.split(" :: ", 1)
                out.append((key, what))
    return out


class Family:
    """scenarios of one kind: how to run them and which specification judges them"""

    def __init__(self, name):
        self.name = name
        self.mod = importlib.import_module("fam_" + name)

    def judge(self, scs):
        """-> (records, tags, stats)"""
        recs = self.mod.record(scs)
        tags, st = {}, {"states": 0, "distinct": 0, "wall": 0.0}
        # TLC holds all records in memory: feed it in chunks
        chunk, size, start = [], 0, 0
        todo = []
        for r in recs:
            chunk.append(r)
            size += len(r["ev"])
            if size > 60000:
                todo.append(chunk)
                chunk, size = [], 0
        if chunk:
            todo.append(chunk)
        for ch in todo:
            tg, s = tlc.validate(ch, self.mod.MODULE)
            tags.update(tg)
            for k in st:
                st[k] += s[k]
        return recs, tags, st


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = registry.CHECKS[pid]
    budget = spec.get("budget", {}).get(tier, 30 if tier == "quick" else 600)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_checked": 0, "models": [], "samples": []}
    # 1. the design
    with ThreadPoolExecutor(4 if tier == "quick" else 2) as ex:
        done = list(ex.map(lambda m: run_model(m, tier, seed), [m for m in spec.get("models", []) if m.get("only", tier) == tier]))
    for r in done:
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["models"].append(r)
    # 2. the code
    fams = {}
    found = []
    deadline = t0 + budget
    rnd = 0
    kinds = {}
    judged, gone = {pid}, False
    while True:
        work = {}
        for fam, gen in spec["gens"]:
            rng = random.Random("%s/%d/%d/%s" % (pid, seed, rnd, gen))
            modn, fn = gen.split(".")
            f = fams.setdefault(fam, Family(fam))
            scs = getattr(importlib.import_module(modn), fn)(rng, tier, rnd)
            work.setdefault(fam, []).extend(scs)
            kinds[gen] = kinds.get(gen, 0) + len(scs)
        for fam, scs in work.items():
            f = fams[fam]
            try:
                recs, tags, st = f.judge(scs)
            except build.BuildError:
                # the part has another interface now: the program as a whole still decides
                if fam != "part" or not (spec.get("instead") or len(work) > 1):
                    raise
                gone = True
                continue
            cov["traces_validated_against_impl"] += len(recs)
            cov["events_checked"] += sum(len(r["ev"]) for r in recs)
            cov["states"] += st["distinct"]
            cov["transitions"] += st["states"]
            if rnd == 0:
                for k in range(0, len(scs), max(1, len(scs) // 3)):
                    if len(cov["samples"]) < 4:
                        cov["samples"].append({"scenario": scs[k].name, "script": [str(x)[:120] for x in scs[k].script[:12]],
                                               "events": len(recs[k]["ev"]), "last": recs[k]["ev"][-3:] if recs[k]["ev"] else []})
            for i, tl in tags.items():
                if any(judged & set(s) for _, s in tl):
                    found.append((f, scs[i], tl))
            if len(found) >= 5:
                break
        if gone:
            spec = dict(spec, gens=[g for g in spec["gens"] if g[0] != "part"] or spec["instead"][0])
            judged |= set(spec.get("instead", (0, ()))[1])
            cov["not_driven_alone"] = gone
            gone = False
        rnd += 1
        if found or rnd >= spec.get("rounds", {}).get(tier, 1 if tier == "quick" else 1000) or time.time() > deadline:
            break
    # 3. rejected executions count only if they repeat
    viol = []
    known = known_findings(pid)
    for f, sc, tl in found[:6]:
        recs, tags, st = f.judge([sc])
        if not any(judged & set(s) for _, s in tags.get(0, [])):
            print("note: rejection of %s did not repeat" % sc.name)
            continue
        k, s = next((k, s) for k, s in tags[0] if judged & set(s))
        ev = recs[0]["ev"]
        key = "%s/%s" % (f.name, sc.meta.get("finding", ""))
        hit = [w for kk, w in known if kk == key]
        if hit:
            continue
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, len(viol) + 1))
        with open(path, "w") as fh:
            json.dump({"property": pid, "family": f.name, "scenario": sc.dump(), "rejected_at": k, "tags": sorted(s),
                       "events": [x for x in ev[max(0, k - 30):k]], "seed": seed, "tier": tier}, fh, indent=1)
        viol.append((path, sc, k, s, ev))
        if len(viol) >= 3:
            break
    cov["scenarios_by_generator"] = kinds
    cov["rounds"] = rnd
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": spec.get("assume") or ASSUME[spec.get("kind", "worker")],
                   "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, fh, indent=1)
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for path, sc, k, s, ev in viol:
        print("rejected: %s, event %d: %s (tags %s)" % (sc.name, k, json.dumps(ev[k - 1])[:300] if k <= len(ev) else "", " ".join(sorted(s))))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if viol:
        return 1
    print("%s held: %d models, %d executions, %d events, %.1f s" % (
        pid, len(cov["models"]), cov["traces_validated_against_impl"], cov["events_checked"], time.time() - t0))
    return 0


def run_model(m, tier, seed):
    """m: dict(module, cfg text or {tier: text}, expect)"""
    cfg = m["cfg"] if isinstance(m["cfg"], str) else m["cfg"][tier]
    args = list(m.get("args", []))
    if m.get("simulate"):
        n = m["simulate"][tier] if isinstance(m["simulate"], dict) else m["simulate"]
        args += ["-simulate", "num=%d" % n, "-depth", str(m.get("depth", 60)), "-seed", str(seed)]
    r = tlc.run(m["module"], cfgtext=cfg, args=args, env=m.get("env"), timeout=m.get("timeout", 700),
                workers=1 if m.get("flawed") else 3 if tier == "quick" else 4, heap="3g" if tier == "quick" else "8g")
    if m.get("flawed") and r.rc == 12 and re.search(r"Invariant \w+ is violated", r.out):
        pass                # as it has to be
    elif r.rc != 0 or m.get("flawed"):
        raise tlc.TlcError("model %s failed (%d):\n%s" % (m.get("name", m["module"]), r.rc, r.out[-4000:]))
    return {"module": m["module"], "name": m.get("name", m["module"]), "states": r.distinct, "transitions": r.states, "wall_s": round(r.wall, 1)}


def replay(path):
    d = json.load(open(path))
    f = Family(d["family"])
    sc = f.mod.load(d["scenario"])
    recs, tags, st = f.judge([sc])
    for e in recs[0]["ev"]:
        print(json.dumps(e)[:400])
    print("tags:", tags)
    return 1 if any(d["property"] in s for _, s in tags.get(0, [])) else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            rc = replay(sys.argv[2])
        else:
            rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
