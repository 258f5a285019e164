"""Executions of master, workers and options for P17 and P18."""
import itertools
import sim
from fam_master import cfg

OPS = ["D", "E", "A", "R", "S", "DR", "RD", "DS", "SD", "RS", "DE", "DRS", "AR", "AS", "RA"]
CMD = {"D": "die 1", "E": "die 2", "A": "dieall", "R": "sig RELOAD", "S": "sig STOP"}


def lines(op):
    c = [CMD[x] for x in op]
    return c if len(c) == 1 else ["batch"] + c + ["end"]


def master(name, n, script, stale=None, **kw):
    m = {"role": "master", "me": 4242}
    if stale:
        # what an earlier master that was killed has left behind
        m["pidfile"] = stale
    return sim.Scenario(name, cfg(n, **kw), script, sup=[], meta=m)


def histories(rng, tier, rnd):
    """all short histories of deaths and requests, alone or at the same moment"""
    out = []
    depth = 2 if rnd == 0 else 3
    every = [(n, h) for n in (1, 2, 3) for h in itertools.product(OPS, repeat=depth)]
    if len(every) > 240:
        # a different part of them in each round
        every = rng.sample(every, 240)
    for n, h in every:
        s = []
        for op in h:
            s += lines(op)
        # what was told to quit eventually does
        s += ["dieall", "nop", "dieall"]
        if rng.random() < .5:
            s += ["sig STOP", "dieall", "nop"]
        out.append(master("history%d" % n + "".join(h), n, s, stale=rng.choice([None, None, None, "7", "4194303", "99999999", "31337\n"])))
    return out


def busy(rng, tier, rnd):
    """requests and deaths while the master is busy with earlier ones"""
    out = []
    for k in range(60):
        n = rng.choice([1, 2, 2, 3, 4])
        s = []
        for _ in range(rng.randrange(1, 6)):
            for _ in range(rng.randrange(1, 3)):
                s.append("inject %d %s" % (rng.randrange(1, 9 + 3 * n), CMD[rng.choice("DEARRSR" if rng.random() < .5 else "DEARR")]))
                s += lines(rng.choice(OPS if rng.random() < .15 else ["D", "R", "DR", "A", "E", "DE"]))
            s.append("nop")
        s += ["dieall", "nop", "dieall", "nop"]
        if rng.random() < .6:
            s += ["sig STOP", "dieall", "nop", "dieall", "nop"]
        out.append(master("busy%d" % k, n, s))
    return out


def starting(rng, tier, rnd):
    """requests arriving while the service starts"""
    out = []
    for k in range(30):
        n = rng.choice([1, 2, 3])
        s = ["inject %d %s" % (k + 1 if rnd == 0 else rng.randrange(1, 40), CMD[rng.choice("RSRSD")]), "nop", "dieall", "nop", "dieall", "nop"]
        out.append(master("starting%d" % k, n, s))
    return out


def forkless(rng, tier, rnd):
    """no process can be had for a while, from the start or later"""
    out = []
    for k in range(16):
        n = rng.choice([2, 3, 5])
        s = ["inject %d forkfail %d" % (rng.randrange(1, 4 * n + 12), rng.choice([1, 1, 2, 9])), "nop"]
        s += ["dieall", "nop", "dieall", "nop"]
        out.append(master("forkless%d" % k, n, s))
    for k in range(24):
        n = rng.choice([1, 2, 3, 5])
        s = ["nop"]
        for _ in range(rng.randrange(1, 5)):
            s.append("forkfail %d" % rng.choice([1, 1, 2, n, 9]))
            s += lines(rng.choice(["D", "A", "DE", "DR", "RD", "AR", "R"]))
            s += ["forkfail 0"] + lines(rng.choice(["D", "D", "E", "R", "A", "DR"])) + ["nop"]
        s += ["dieall", "nop", "dieall", "nop"]
        if rng.random() < .6:
            s += ["sig STOP", "dieall", "nop", "dieall", "nop"]
        out.append(master("unforked%d" % k, n, s))
    return out


def long_(rng, tier, rnd):
    """long lives"""
    out = []
    for k in range(6):
        n = rng.choice([1, 2, 3, 5, 8])
        s = []
        for _ in range(60):
            s += lines(rng.choice(["D", "E", "A", "R", "DR", "RD", "DE", "RA", "AR"]))
            if rng.random() < .1:
                s.append("inject %d %s" % (rng.randrange(1, 30), CMD[rng.choice("DR")]))
        s += ["nop", "sig STOP", "die 1", "dieall", "nop"]
        out.append(master("long%d" % k, n, s))
    # as a background service
    for k in range(4):
        n = rng.choice([1, 2])
        s = ["sig RELOAD", "dieall", "die 1", "sig STOP", "dieall", "nop"] if k % 2 else ["batch", "die 1", "sig RELOAD", "end", "dieall", "nop"]
        sc = sim.Scenario("daemon%d" % k, cfg(n, sys_daemon=1), s, sup=[1], meta={"role": "master", "me": 5001, "daemon": True})
        out.append(sc)
    return out


def child(rng, tier, rnd):
    """a worker told to quit while it is doing something"""
    out = []
    for k in range(24):
        n = rng.choice([1, 2, 3])
        which = rng.randrange(1, n + 1)
        s = []
        late = False
        for j in range(rng.randrange(0, 4)):
            c = "C%d" % j
            kind = rng.randrange(4)
            if kind == 0:
                s += ["conn %s 8080 plain" % c, "send %s txt:GET_/" % c]
            elif kind == 1:
                s += ["conn %s 3333 tls" % c, "send %s hex:%s" % (c, (sim.auth_header() + b"\5\1\0").hex())]
            elif kind == 2:
                s += ["conn %s 3333 tls nohs" % c]
            else:
                s += ["conn %s 3333 tls" % c, "send %s hex:%s" % (c, (sim.auth_header() + b"\5\1\0").hex()),
                      "send %s hex:%s" % (c, sim.req_dom("a.b", 80).hex()) if rng.random() < .5 else "send %s hex:%s" % (c, sim.req_ip("1.2.3.4", 80).hex())]
            if rng.random() < .2:
                s.append("adv %d" % rng.choice([10, 4000]))
            if not late and rng.random() < .5:
                s.insert(rng.randrange(len(s)), "sigat %d TELL" % rng.randrange(1, 8))
                late = True
        if not late:
            s.append("sig TELL")
        s += ["adv 31000", "sig TELL", "adv 31000"]
        if rng.random() < .4:
            # told a second time while it starts or leaves
            s.insert(0, "inject %d sig TELL" % rng.randrange(2, 26))
        out.append(sim.Scenario("child%d" % k, cfg(n), s, sup=[which], meta={"role": "worker", "me": 5000 + which, "boss": 4242}))
    # one that replaces another
    for k in range(6):
        n = rng.choice([1, 2])
        s = ["die 1", "sig TELL", "adv 31000"]
        out.append(sim.Scenario("heir%d" % k, cfg(n), s, sup=[n + 1], meta={"role": "worker", "me": 5000 + n + 1, "boss": 4242}))
    return out


def options(rng, tier, rnd):
    out = []
    for k in range(16):
        pid = rng.choice(["4242", "1", "7", "32767", "99999", "4194303", str(rng.randrange(2, 4194304)), None])
        o = rng.choice(["-stop", "-reload", "-stop", "-reload", "-help", "stop", "-reloadx", "-sto"])
        m = {"role": "option", "ask": {"-stop": "stop", "-reload": "reload"}.get(o, "")}
        if pid:
            m["pidfile"] = pid
        out.append(sim.Scenario("option%d" % k, cfg(rng.choice([0, 1, 2])), [], sup=[0, o], meta=m))
    return out


def P17(rng, tier, rnd):
    return histories(rng, tier, rnd) + busy(rng, tier, rnd) + starting(rng, tier, rnd) + forkless(rng, tier, rnd) + long_(rng, tier, rnd) + child(rng, tier, rnd)


def P18(rng, tier, rnd):
    return histories(rng, tier, rnd) + busy(rng, tier, rnd) + starting(rng, tier, rnd) + forkless(rng, tier, rnd) + long_(rng, tier, rnd) + child(rng, tier, rnd) + options(rng, tier, rnd)
