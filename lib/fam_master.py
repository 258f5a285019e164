"""Executions of the supervising process, of a worker it started and of the
command-line options, judged by MasterTrace."""
import sim

MODULE = "MasterTrace"
load = sim.Scenario.load
SIGNALS = [1, 2, 3, 10, 12, 15]
_probed = {}


def cfg(n, **kw):
    return sim.base_config("s", sys_process=n, http=[8080], **kw)


def pid_in(text):
    if text in (None, "none"):
        return 0
    return int(text) if text.isdigit() and len(text) < 9 else -1


def probe():
    """-> which signals the options send, the master uses for its workers, a worker quits at"""
    if not _probed:
        opts = [sim.Scenario("opt", cfg(1), [], sup=[0, o], meta={"pidfile": "4242"}) for o in ("-stop", "-reload")]
        kids = [sim.Scenario("kid", cfg(1), ["sig %d" % s, "adv 31000"], sup=[1]) for s in SIGNALS]
        ev = sim.run(opts + kids)
        sent = [[e["s"] for e in x if e["e"] == "kill" and 0 < e["s"] < 65] for x in ev[:2]]
        stop = sent[0][0] if sent[0] else 2
        rel = sent[1][0] if sent[1] else 1
        quits = {s for s, x in zip(SIGNALS, ev[2:]) if any(e["e"] in ("exit", "killedby") for e in x)} | {9}
        mas = sim.run([sim.Scenario("mas", cfg(2), ["sig %d" % s], sup=[]) for s in (stop, rel)])
        tells = {e["s"] for x in mas for e in x if e["e"] == "kill"} & set(SIGNALS)
        _probed.update(stop=stop, reload=rel, quits=sorted(quits), tells=sorted(tells))
    return _probed


def record(scs):
    p = probe()
    run = []
    for s in scs:
        t = sim.Scenario.load(s.dump())
        t.script = [x.replace("STOP", str(p["stop"])).replace("RELOAD", str(p["reload"])).replace("TELL", str((p["tells"] or [2])[0])) for x in s.script]
        run.append(t)
    out = []
    for i, (s, ev) in enumerate(zip(run, sim.run(run))):
        m = s.meta
        h = dict(role=m["role"], n=max(1, s.config["sys_process"]), me=m.get("me", 4242), boss=m.get("boss", 4242), stop=p["stop"], reload=p["reload"],
                 quits=p["quits"], tells=p["tells"], to=pid_in(m.get("pidfile")), ask=m.get("ask", ""), lift=m.get("lift", []))
        r = []
        for e in ev:
            k = e["e"]
            if k in ("fork", "reap", "die"):
                r.append({"e": k, "pid": e["pid"]})
            elif k in ("post", "sig"):
                r.append({"e": k, "s": e["s"]})
            elif k == "kill":
                r.append({"e": k, "pid": e["pid"], "s": e["s"]})
            elif k == "suspend":
                r.append({"e": k, "alive": e["alive"], "pidfile": pid_in(e["pidfile"])})
            elif k == "killedby":
                r.append({"e": "killed", "pidfile": pid_in(e["pidfile"])})
            elif k == "exit" and "pidfile" in e:
                r.append({"e": k, "pidfile": pid_in(e["pidfile"])})
            elif k in ("forkfailed", "ischild", "end", "crash", "hang", "tick", "listen", "start"):
                r.append({"e": k})
        if m.get("daemon"):
            # the process that detaches is not the service
            for j, e in enumerate(r):
                if e["e"] == "ischild":
                    r = r[j + 1:]
                    break
        out.append({"id": i, "h": h, "ev": r})
    return out
