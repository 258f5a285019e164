"""Scenarios for the local (client) role: when the tunnel gets ready, what is sent on it, and failures."""
from scen import *
from gen_tunnel import knobs, relay_ops, SIZES, ROOMS

KEYS = ["k", "0123456789abcdef", "short-key", "x" * 15, "y" * 16, "Z~!@#$%^&*()_+-="]


def lead(b, rng, c):
    """bytes (or none) an application sends while the tunnel is being set up"""
    if rng.random() < .6:
        b("send %s pat:%d" % (c, rng.choice([1, 2, 5, 100, 1000, 4096, 8100, 8192, 8193, 9000, 20000])))


def setup(rng, i):
    """application data at every stage of connection and handshake"""
    b = B("setup%d" % i, mode="c", rng=rng, s5_local_auth=rng.choice(KEYS))
    knobs(b, rng)
    b("uptls 1")
    legs = []
    n = rng.choice([1, 1, 2, 3])
    pend, slow = [], []
    for j in range(n):
        c, u = "A%d" % j, "U%d" % (j + 1)
        pol = rng.choice(["ok", "inprog", "inprog", "auto"])
        b("policy %s" % pol)
        tight = rng.random() < .3
        if tight:
            # the server accepts little before, in or after the TLS greeting
            b("uproom %d" % rng.choice([0, 100, rng.randrange(280, 480), rng.randrange(370, 440)]))
        b("conn %s 1080 plain%s" % (c, " room=%d" % rng.choice(ROOMS[2:]) if rng.random() < .15 else ""))
        if rng.random() < .2:
            b("adv %d" % rng.choice([1, 1000, 4900]))
        b("send %s pat:%d" % (c, rng.choice([1, 2, 20, 100, 4096, 8191, 8192, 8193, 9000, 30000])))
        legs.append((c, u))
        pend.append((c, u, pol))
        if tight:
            b("uproom inf")
            slow.append(u)
    rng.shuffle(pend)
    hung = []
    for c, u, pol in pend:
        lead(b, rng, c)
        if rng.random() < .5:
            b("hold %s" % u)
            hung.append((c, u))
        if pol == "inprog":
            if rng.random() < .3:
                b("adv %d" % rng.choice([10, 1000, 4000]))
            lead(b, rng, c)
            b("dialres %s ok" % u)
        lead(b, rng, c)
    for c, u in hung:
        for _ in range(rng.randrange(0, 4)):
            b("deliver %s %d" % (u, rng.choice([1, 4, 5, 6, 100, 500, 1000])))
            if rng.random() < .3:
                b("adv %d" % rng.choice([10, 1000, 4000]))
            lead(b, rng, c)
        b("unhold %s" % u)
    for u in slow:
        for _ in range(rng.randrange(5)):
            b("room %s +%d" % (u, rng.choice([1, 5, 22, 30, 60, 100, 300])))
            if rng.random() < .3:
                b("adv %d" % rng.choice([10, 1000, 2000]))
        b("room %s inf" % u)
    relay_ops(b, rng, legs, rng.randrange(3, 15), ends=rng.random() < .4)
    for c, u in legs:
        b("room %s inf" % c, "room %s inf" % u)
    return b.done()


JUNK = ["00", "15030300020228", "485454502f312e3120343030", "16030100", "ff" * 40, "1603030004" + "0e000000", "14030300010114030300010f"]


def failing(rng, i):
    """the server cannot be reached, goes away or speaks no TLS"""
    b = B("failing%d" % i, mode="c", rng=rng, s5_local_auth=rng.choice(KEYS))
    knobs(b, rng)
    plain = rng.random() < .35
    b("uptls %d" % (0 if plain else 1))
    for j in range(rng.choice([1, 2])):
        c, u = "A%d" % j, "U%d" % (j + 1)
        if plain:
            b.meta.setdefault("plainups", []).append(u)
        pol = rng.choice(["inprog", "inprog", "refuse", "unreach", "ok"]) if not plain else rng.choice(["ok", "inprog"])
        b("policy %s" % pol)
        b("conn %s 1080 plain" % c)
        b("send %s pat:%d" % (c, rng.choice([1, 20, 4096, 9000])))
        if pol in ("refuse", "unreach"):
            continue
        lead(b, rng, c)
        stage = rng.random()
        if pol == "inprog":
            if rng.random() < .3:
                b("adv %d" % rng.choice([1, 4000, 9999, 10000, 12000]))
            if stage < .3:
                b("dialres %s %s" % (u, rng.choice(["refused", "unreach", "timeout"])))
                continue
            if stage < .45:
                b(rng.choice(["fin %s", "rst %s"]) % c)
                continue
            b("hold %s" % u) if not plain else None
            b("dialres %s ok" % u)
        else:
            b("hold %s" % u) if not plain else None
        lead(b, rng, c)
        if plain:
            k = rng.random()
            if k < .6:
                b("raw %s %s" % (u, rng.choice(JUNK)))
            elif k < .8:
                b("fin %s" % u)
            else:
                b("adv 12000")
            continue
        for _ in range(rng.randrange(0, 3)):
            b("deliver %s %d" % (u, rng.choice([1, 5, 100, 700])))
        k = rng.random()
        if k < .25:
            b("fin %s" % u)
        elif k < .45:
            b("rst %s" % u)
        elif k < .6:
            b(rng.choice(["fin %s", "rst %s"]) % c)
        elif k < .75:
            b("adv %d" % rng.choice([4000, 6000, 12000]))
            b("unhold %s" % u)
        elif k < .85:
            b("flip %s %d" % (u, rng.choice([0, 1, 5, 6, 50, 200])))
            b("unhold %s" % u)
        else:
            b("unhold %s" % u)
    # a later application is served
    b("policy ok", "uptls 1")
    b("conn Z 1080 plain", "send Z pat:50")
    return b.done()


def P19(rng, tier, rnd=0):
    return [setup(rng, i) for i in range(50)] + [failing(rng, i) for i in range(40)]
