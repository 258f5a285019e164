"""Scenarios for established tunnels (relaying, back-pressure, endings)."""
import graph
from scen import *

SIZES = [1, 2, 3, 7, 100, 1000, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 12000, 16383, 16384, 16385, 20000, 40000, 70000]
ROOMS = [0, 1, 2, 5, 16, 29, 30, 100, 1000, 4096, 8192, 8193, 16384, 20000]


def knobs(b, rng):
    """behaviour of the operating system that the program must not depend on"""
    if rng.random() < .3:
        b("rcvcap %d" % rng.choice([1, 3, 100, 1000, 4096]))
    if rng.random() < .3:
        b("sndcap %d" % rng.choice([1, 50, 700, 4096]))
    b("order %s" % rng.choice(["fifo", "lifo", "rand"]))
    if rng.random() < .2:
        b("evcap 1")
    if rng.random() < .25:
        b("tls12 1")
    b("seed %d" % rng.randrange(1 << 30))


def relay_ops(b, rng, legs, n, ends=True, big=True):
    """random traffic on established tunnels; legs: list of (c, u)"""
    sizes = SIZES if big else SIZES[:12]
    live = list(legs)
    blocked = set()
    limited = set()
    keyed = set()
    inbatch = False
    for _ in range(n):
        if not live:
            break
        c, u = rng.choice(live)
        x, y = (c, u) if rng.random() < .5 else (u, c)
        if not inbatch and rng.random() < .25:
            b("batch")
            inbatch = True
        r = rng.random()
        if r < .5:
            n_ = rng.choice(sizes)
            rec = " %d" % rng.choice([1, 10, 1000, 4096, 16384]) if rng.random() < .2 and n_ < 5000 else ""
            b("send %s pat:%d%s" % (x, n_, rec))
        elif r < .62:
            limited.add(x)
            b("room %s %d" % (x, rng.choice(ROOMS)))
            blocked.add(x)
        elif r < .76:
            if blocked and rng.random() < .8:
                x = rng.choice(sorted(blocked))
            limited.add(x)
            if rng.random() < .5:
                b("room %s inf" % x)
                blocked.discard(x)
            else:
                b("room %s +%d" % (x, rng.choice([1, 3, 17, 30, 500, 5000, 9000, 17000])))
                blocked.add(x)
        elif r < .82:
            b("hold %s" % x)
            b("send %s pat:%d" % (x, rng.choice(sizes[:12])))
            for _ in range(rng.randrange(3)):
                b("deliver %s %d" % (x, rng.choice([1, 4, 5, 21, 22, 100, 2000])))
            b("unhold %s" % x)
        elif r < .86:
            b("adv %d" % rng.choice([1, 10, 1000, 4000, 9000])) if not inbatch else None
        elif r < .88:
            # the peer that speaks TLS asks for new keys; the TLS library gives
            # up when it is asked twice while it cannot write
            x = c if c.startswith("C") else u
            if x not in limited or x not in keyed:
                b("keyupdate %s" % x)
                keyed.add(x)
        elif r < .97 or not ends:
            pass
        else:
            k = rng.random()
            if k < .6:
                b("fin %s" % x)
            elif k < .8 and not x.startswith("U"):
                b("tlsclose %s" % x)
            else:
                b("rst %s" % x)
            live.remove((c, u))
        if inbatch and rng.random() < .4:
            b("end")
            inbatch = False
    if inbatch:
        b("end")
    return live


def open_server(b, rng, n, same=False):
    return [("C%d" % i, b.tunnel("C%d" % i, ip="1.2.3.%d" % i)) for i in range(1, n + 1)]


def open_local(b, rng, n):
    b("uptls 1")
    legs = []
    for i in range(1, n + 1):
        c = "A%d" % i
        early = rng.random() < .5
        b("policy %s" % ("inprog" if early else "auto"))
        u = b.app(c, first=rng.choice([1, 20, 100, 4096, 9000]))
        if early:
            # more arrives before the tunnel is ready
            for _ in range(rng.randrange(3)):
                b("send %s pat:%d" % (c, rng.choice([1, 100, 4000, 9000, 20000])))
            b("dialres %s ok" % u)
        legs.append((c, u))
    return legs


def finish(b, rng, live, drain=True):
    """let what is pending be delivered, then end the sessions"""
    for c, u in live:
        if drain:
            b("room %s inf" % c, "room %s inf" % u)
    for c, u in live:
        k = rng.random()
        x = c if rng.random() < .5 else u
        if k < .7:
            b("fin %s" % x)
        elif k < .8:
            b("rst %s" % x)


def traffic(rng, i, mode, nsess=None, ops=None, ends=True):
    b = B("traffic%d%s" % (i, mode), mode=mode, rng=rng)
    knobs(b, rng)
    n = nsess or rng.choice([1, 1, 2, 3])
    legs = (open_server if mode == "s" else open_local)(b, rng, n)
    live = relay_ops(b, rng, legs, ops or rng.randrange(8, 40), ends=ends)
    finish(b, rng, live)
    return b.done()


def ending(rng, i, mode):
    """data, back-pressure at the receiver, then the end of the sender"""
    b = B("ending%d%s" % (i, mode), mode=mode, rng=rng)
    knobs(b, rng)
    (c, u), = (open_server if mode == "s" else open_local)(b, rng, 1)
    x, y = (c, u) if rng.random() < .5 else (u, c)
    if rng.random() < .5:
        b("send %s pat:%d" % (y, rng.choice(SIZES)))
    room = rng.choice(ROOMS + ["inf"])
    b("room %s %s" % (y, room))
    both = rng.random() < .5
    if both:
        b("batch")
    for _ in range(rng.randrange(1, 4)):
        b("send %s pat:%d" % (x, rng.choice(SIZES)))
    b(rng.choice(["fin %s", "fin %s", "tlsclose %s" if (x == c) == (mode == "s") else "fin %s"]) % x)
    if both:
        b("end")
    for _ in range(rng.randrange(0, 12)):
        k = rng.random()
        if k < .4:
            b("room %s +%d" % (y, rng.choice([1, 30, 500, 4096, 9000, 20000])))
        elif k < .7:
            b("adv %d" % rng.choice([1000, 5000, 9000]))
            b("room %s +%d" % (y, rng.choice([100, 4096, 9000])))
        elif k < .8:
            b("send %s pat:%d" % (y, rng.choice(SIZES[:12])))
        else:
            b("adv %d" % rng.choice([1, 500]))
    if rng.random() < .7:
        b("room %s inf" % y)
    return b.done()


MODEL = """SPECIFICATION Spec
CONSTANTS Cap=2 MaxSend=%d MaxRoom=%d Rekeys=%d EndAfter=%d
CHECK_DEADLOCK FALSE
"""


def designed(rng, i, mode, path, rooms):
    """a behaviour of the design model as an environment of the real worker:
    what happens between two steps of the relay happens at once"""
    b = B("model%d%s" % (i, mode), mode=mode, rng=rng)
    b("order %s" % rng.choice(["fifo", "lifo", "rand"]))
    if rng.random() < .3:
        b("evcap 1")
    (c, u), = (open_server if mode == "s" else open_local)(b, rng, 1)
    tls, raw = (c, u) if mode == "s" else (u, c)
    leg = {"D": tls, "U": raw} if mode == "s" or any(o[0] == "rekey" for o in path) else {"D": raw, "U": tls}
    unit = rng.choice([50, 1000, 4096, 6000, 6144, 8192, 12288, 16384])
    more = {x: unit + (22 if x == tls else 0) for x in (c, u)}
    for x in (c, u):
        b("room %s %d" % (x, rooms * more[x]))
    group = []

    def flush():
        if len(group) > 1:
            b("batch", *group)
            b("end")
        else:
            b(*group)
        del group[:]

    for o in path[1:]:
        if o[0] == "act":
            flush()
            continue
        x = leg[o[1]]
        group.append({"send": "send %s pat:%d" % (x, unit), "room": "room %s +%d" % (x, more[x]),
                      "end": "fin %s" % x, "reset": "rst %s" % x, "rekey": "keyupdate %s" % x}[o[0]])
    flush()
    for x in (c, u):
        b("room %s inf" % x)
    return b.done()


def model(rng, n):
    sends, rooms, rekeys = rng.choice([(4, 2, 1), (5, 1, 1), (7, 3, 0), (7, 1, 1), (10, 2, 0)])
    ps = graph.behaviours("TunnelMC", MODEL % (sends, rooms, rekeys, rng.choice([0, sends, 2 * sends - 2])), rng, n, 90)
    return [designed(rng, i, "s" if i % 3 else "c", p, rooms) for i, p in enumerate(ps)]


def P01(rng, tier, rnd=0):
    n = 60
    return [traffic(rng, i, "s" if i % 3 else "c") for i in range(n)] + model(rng, 40)


def P02(rng, tier, rnd=0):
    n = 80
    return [ending(rng, i, "s" if i % 3 else "c") for i in range(n)] + model(rng, 40)


def P03(rng, tier, rnd=0):
    n = 60
    return [traffic(rng, i, "s" if i % 3 else "c", ends=False) for i in range(n)] + model(rng, 40)
