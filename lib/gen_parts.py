"""Operation sequences for single parts: paths through the models' state
graphs, and random ones at sizes the models do not reach."""
import random
import graph
from fam_part import PartScenario

END = "\nCHECK_DEADLOCK FALSE\n"
CFG = {
    "ring": lambda cap: "SPECIFICATION Spec\nCONSTANTS Cap=%d MaxN=%d\nINVARIANTS Fifo Bounds" % (cap, cap + 1) + END,
    "map": lambda k, b: "SPECIFICATION Spec\nCONSTANTS Keys={%s} Buckets=%d Vals={1,2}\nINVARIANT IsMap" % (",".join(map(str, range(1, k + 1))), b) + END,
    "tree": lambda n: "SPECIFICATION Spec\nCONSTANT Keys={%s}\nINVARIANT Ordered" % ",".join(map(str, range(n))) + END,
    "pool": lambda n, s: "SPECIFICATION Spec\nCONSTANTS Classes={1,2} N=%d Slots={%s}\nINVARIANTS Disjoint Conserved" % (n, ",".join(map(str, range(1, s + 1)))) + END,
    "timer": lambda t, d: "SPECIFICATION Spec\nCONSTANTS Timers={%s} MaxDelay=%d\nINVARIANTS HeapOrder Same Good" % (",".join(map(str, range(1, t + 1))), d) + END,
    "queue": lambda n, flaw="none": "SPECIFICATION Spec\nCONSTANTS Nodes={%s} Flaw=\"%s\"\nINVARIANTS Forward Backward Empty" % (",".join(map(str, range(11, 11 + n))), flaw) + END,
    "chain": lambda caps, n, flaw="none": "SPECIFICATION Spec\nCONSTANTS C1=%d C2=%d C3=%d MaxN=%d Flaw=\"%s\"\nINVARIANTS Same Joins Bounds" % ((tuple(caps) + (0,))[:3] + (n, flaw)) + END,
    "log": lambda n, flaw="none": "SPECIFICATION Spec\nCONSTANTS MaxLen=%d Flaw=\"%s\"\nINVARIANT Complete\nPROPERTY Grows" % (n, flaw) + END,
    "ac": lambda a, k, m, t: "SPECIFICATION Spec\nCONSTANTS Alpha={%s} MaxKey=%d MaxKeys=%d MaxText=%d\nINVARIANT Exact" % (",".join(map(str, range(97, 97 + a))), k, m, t) + END,
}


# ---------------------------------------------------------------- ring
def ring(rng, tier, rnd):
    out = []
    if rnd < 5:
        cap = [4, 3, 1, 2, 5][rnd]
        ps, _ = graph.tours("RingMC", CFG["ring"](cap), rng, 120, 260)
        for i, p in enumerate(ps):
            out.append(PartScenario("ring", "ring-model%d-%d" % (cap, i), [" ".join(o) for o in p]))
    for i in range(60 if tier == "quick" else 120):
        cap = rng.choice([1, 2, 3, 7, 8, 16, 31, 64, 255, 256, 1000, 4096, 8000, 16000])
        s = ["new %d" % cap]
        ln = 0
        for _ in range(rng.randrange(20, 200 if cap < 1000 else 40)):
            n = rng.choice([1, 2, cap, cap + 1, max(1, cap // 2), max(1, cap - 1), rng.randrange(1, cap + 2), max(1, cap - ln), max(1, ln)])
            if rng.random() < .5:
                s.append("push %d" % n)
                if n <= cap - ln:
                    ln += n
            else:
                s.append("pull %d" % n)
                ln -= min(n, ln)
        out.append(PartScenario("ring", "ring%d" % i, s))
    return out


# ---------------------------------------------------------------- keyed store
# strings whose 32-bit FNV-1a hashes agree
TWINS = []


def fnv(b):
    h = 0x811c9dc5
    for c in b:
        h = ((h ^ c) * 0x01000193) & 0xffffffff
    return h


def twins():
    if not TWINS:
        seen = {}
        r = random.Random(7)
        while len(TWINS) < 4:
            k = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789.-") for _ in range(r.randrange(3, 9)))
            h = fnv(k)
            if h in seen and seen[h] != k:
                TWINS.append((seen[h], k))
            seen[h] = k
    return TWINS


def keyset(rng):
    k = rng.random()
    if k < .2:
        return [x for p in twins() for x in p] + [b"other"]
    if k < .4:
        b = bytes(rng.choice(b"abc") for _ in range(8))
        return [b[:i] for i in range(1, 9)]
    if k < .6:
        n = rng.choice([1, 2, 8, 255, 500])
        return [bytes(rng.randrange(256) for _ in range(n)) for _ in range(6)] + [bytes(n), bytes(n + 1)]
    if k < .8:
        # equal up to one position, also around zero bytes
        base = bytearray(rng.randrange(256) for _ in range(rng.randrange(2, 40)))
        ks = [bytes(base)]
        for _ in range(6):
            x = bytearray(base)
            x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            ks.append(bytes(x))
        return ks + [bytes(base) + b"\0", b"\0" + bytes(base)]
    return [bytes(rng.choice(b"abcdefghij") for _ in range(rng.randrange(1, 12))) for _ in range(rng.randrange(3, 40))]


def map_(rng, tier, rnd):
    out = []
    if rnd < 3:
        k, b = [(3, 1), (4, 2), (3, 2)][rnd]
        ps, _ = graph.tours("MapMC", CFG["map"](k, b), rng, 150, 200)
        names = [b"a", b"ab", b"b", b"ba", b"abc"]
        for i, p in enumerate(ps):
            # the model's buckets become a store with one bucket or few
            ks = rng.sample(names, 4) if i % 2 else [x for t in twins()[:2] for x in t]
            s = ["new %d" % (1 if i % 3 else b)]
            for o in p[1:]:
                kk = ks[(int(o[1]) - 1) % len(ks)].hex()
                s.append("add %s %s" % (kk, "%02x" % (int(o[2]) * 17) * int(o[2])) if o[0] == "add" else "%s %s" % (o[0], kk))
            out.append(PartScenario("map", "map-model%d" % i, s))
    for i in range(60 if tier == "quick" else 120):
        ks = keyset(rng)
        s = ["new %d" % rng.choice([1, 2, 3, 7, 13, 64, 97, 1000])]
        big = max(len(k) for k in ks) > 200
        for _ in range(rng.randrange(20, 60 if big else 160)):
            k = rng.choice(ks).hex()
            r = rng.random()
            if r < .4:
                s.append("add %s %s" % (k, bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 30]))).hex()))
            elif r < .75:
                s.append("find " + k)
            else:
                s.append("del " + k)
        s += ["find " + k.hex() for k in ks]
        out.append(PartScenario("map", "map%d" % i, s))
    return out


# ---------------------------------------------------------------- tree
def tree(rng, tier, rnd):
    out = []
    n = [5, 4, 6][min(rnd, 2)] if rnd < 3 else 0
    if n and not (n == 6 and tier == "quick"):
        ps, _ = graph.tours("TreeMC", CFG["tree"](n), rng, 80, 600)
        for i, p in enumerate(ps):
            # the model's keys spread out, in the same order
            ks = sorted(rng.sample(range(1000), n)) if i % 2 else list(range(n))
            s = ["new"]
            for o in p[1:]:
                s.append("%s %d" % (o[0], ks[int(o[1])]))
                if rng.random() < .15:
                    s.append("find %d" % rng.choice(ks))
            out.append(PartScenario("tree", "tree-model%d-%d" % (n, i), s))
    for i in range(50 if tier == "quick" else 100):
        m = rng.choice([3, 6, 10, 20, 60])
        ks = rng.sample(range(rng.choice([m, m * 3, 10 ** 9])), m)
        s, live = ["new"], set()
        for _ in range(rng.randrange(20, 120)):
            k = rng.choice(ks)
            r = rng.random()
            if r < .5 and k not in live:
                s.append("add %d" % k)
                live.add(k)
            elif r < .85:
                s.append("del %d" % k)
                live.discard(k)
            else:
                s.append("find %d" % k)
        out.append(PartScenario("tree", "tree%d" % i, s))
    return out


# ---------------------------------------------------------------- memory pool
SIZES = [512, 1024, 2048, 4096, 8192, 16384]


def pool(rng, tier, rnd):
    out = []
    if rnd < 2:
        n, sl = [(2, 4), (2, 5)][rnd]
        ps, _ = graph.tours("PoolMC", CFG["pool"](n, sl), rng, 140, 60)
        for i, p in enumerate(ps):
            # two classes of the real pool with n blocks left in each
            cs = rng.sample(range(2, 6), 2) if i % 8 else rng.sample(range(6), 2)
            s = []
            for j, c in enumerate(cs):
                s.append("drain %d %d" % (SIZES[c], 100 + j * 3000))
                a = 100 + j * 3000 + rng.randrange(900)
                s.append("release %d %d" % (a, a + n - 1))
            for o in p[1:]:
                if o[0] == "alloc":
                    c = cs[int(o[2]) - 1]
                    s.append("alloc %s %d" % (o[1], rng.choice([SIZES[c], (SIZES[c - 1] if c else 0) + 1])))
                else:
                    s.append("free " + o[1])
            s.append("check")
            for j, c in enumerate(cs):
                s.append("release %d %d" % (100 + j * 3000, 3099 + j * 3000))
                s.append("drain %d %d" % (SIZES[c], 100 + j * 3000))
            out.append(PartScenario("pool", "pool-model%d" % i, s))
    for i in range(16 if tier == "quick" else 40):
        # all sizes around the class limits, partial and complete exhaustion
        s = []
        used = []
        for _ in range(rng.randrange(30, 120)):
            r = rng.random()
            if r < .6:
                k = rng.randrange(90)
                c = rng.choice(SIZES)
                s.append("alloc %d %d" % (k, rng.choice([1, c - 1, c, c + 1, rng.randrange(1, 17000), 16384, 16385, 20000, 1 << 20])))
            elif r < .95:
                s.append("free %d" % rng.randrange(90))
            else:
                s.append("check")
        c = rng.randrange(6)
        a = 100
        s.append("drain %d %d" % (SIZES[c], a))
        for _ in range(rng.randrange(1, 4)):
            lo = a + rng.randrange(1000)
            s.append("release %d %d %d" % (lo, lo + rng.randrange(300), rng.choice([1, 1, 2, 7])))
            s.append("alloc %d %d" % (rng.randrange(90), SIZES[c]))
            s.append("alloc %d %d" % (rng.randrange(90), SIZES[(c + 1) % 6]))
            s.append("drain %d %d" % (SIZES[c] - rng.randrange(2), a))
        s += ["check", "release 0 8999", "drain %d 100" % SIZES[c], "alloc 1 %d" % SIZES[c], "alloc 2 %d" % SIZES[(c + 1) % 6], "release 0 8999"]
        out.append(PartScenario("pool", "pool%d" % i, s))
    return out


# ---------------------------------------------------------------- timers
def timer(rng, tier, rnd):
    out = []
    if rnd < 2 or (tier == "thorough" and rnd < 3):
        t, d = [(3, 3), (4, 2), (5, 2)][rnd]
        ps, _ = graph.tours("TimerMC", CFG["timer"](t, d), rng, 100, 350)
        for i, p in enumerate(ps):
            u = rng.choice([1, 5, 1000])
            s = []
            for o in p[1:]:
                if o[0] == "arm":
                    s.append("arm %s %d" % (o[1], int(o[2]) * u))
                elif o[0] == "del":
                    s.append("del " + o[1])
                else:
                    s += ["adv %d" % (int(o[1]) * u), "run"]
            out.append(PartScenario("timer", "timer-model%d-%d" % (t, i), s))
    for i in range(60 if tier == "quick" else 120):
        n = rng.choice([3, 8, 20, 60])
        span = rng.choice([4, 50, 10000])
        s = []
        for _ in range(rng.randrange(20, 140)):
            r = rng.random()
            k = rng.randrange(n)
            if r < .45:
                s.append("arm %d %d" % (k, rng.randrange(span)))
            elif r < .6:
                s.append("del %d" % k)
            elif r < .75:
                # what it does when it fires: re-arm itself or another, cancel
                if rng.random() < .5:
                    s.append("then %d arm %d %d" % (k, rng.choice([k, rng.randrange(n)]), rng.randrange(1, span)))
                else:
                    s.append("then %d del %d" % (k, rng.randrange(n)))
                # at most six per timer, so fire them now and then
                if sum(x.startswith("then %d " % k) for x in s) > 5:
                    s.pop()
            else:
                s += ["adv %d" % rng.choice([0, 1, span // 3, span, span * 2]), "run"]
        s += ["adv %d" % (span * 3), "run", "adv %d" % (span * 3), "run"]
        out.append(PartScenario("timer", "timer%d" % i, s))
    for i in range(2):
        # capacity: many timers, then more than there is room for
        s = ["many 0 1500 1000 %d" % rng.choice([0, 1, -1 if i else 1]), "many 1500 60 400 3"]
        for _ in range(30):
            s += ["del %d" % rng.randrange(1560), "arm %d %d" % (rng.randrange(1560), rng.randrange(3000))]
        s += ["adv 500", "run", "many 1600 300 10 1", "adv 700", "run", "adv 4000", "run"]
        out.append(PartScenario("timer", "timer-many%d" % i, s))
    return out


# ---------------------------------------------------------------- key search
def keys(rng, tier, rnd):
    out = []
    for i in range(150 if tier == "quick" else 400):
        al = rng.choice([b"ab", b"ab", b"abc", b"xyz0", bytes(range(1, 256)), bytes(range(128, 140))])
        n = rng.choice([1, 2, 3, 5, 10, 40])
        ks = sorted({bytes(rng.choice(al) for _ in range(rng.randrange(1, rng.choice([3, 5, 17])))) for _ in range(n)})
        rng.shuffle(ks)
        s = ["new " + " ".join(k.hex() for k in ks)]
        for _ in range(40):
            r = rng.random()
            k = rng.choice(ks)
            if r < .3:
                t = bytes(rng.choice(al) for _ in range(rng.randrange(1, 33)))
            elif r < .5:
                t = k
            elif r < .7:
                j = rng.choice(ks)
                t = bytes(rng.choice(al) for _ in range(rng.randrange(4))) + k[:rng.randrange(len(k) + 1)] + j[rng.randrange(len(j)):] + bytes(rng.choice(al) for _ in range(rng.randrange(4)))
            elif r < .85:
                t = k[:-1] + bytes([k[-1] ^ (1 << rng.randrange(8))])
            else:
                t = k[:rng.randrange(len(k))]
            s.append("find " + ((t[:32]).hex() or "-"))
        out.append(PartScenario("ac", "keys%d" % i, s, ks))
    # every set of up to three keys of up to two letters, every text up to five
    import itertools
    words = [bytes(x) for n in (1, 2, 3) for x in itertools.product(b"ab", repeat=n)]
    texts = [bytes(x) for n in range(1, 6) for x in itertools.product(b"ab", repeat=n)]
    sets = [c for m in (1, 2, 3) for c in itertools.combinations(words, m)]
    for c in (sets if tier == "thorough" else rng.sample(sets, 120)):
        c = list(c)
        rng.shuffle(c)
        out.append(PartScenario("ac", "keys-all", ["new " + " ".join(k.hex() for k in c)] + ["find " + t.hex() for t in texts], c))
    return out


# ---------------------------------------------------------------- sequences
def seq(rng, tier, rnd):
    out = []
    if rnd < 3:
        ps, _ = graph.tours("QueueMC", CFG["queue"]([4, 3, 4][rnd]), rng, 100, 120)
        for i, p in enumerate(ps):
            out.append(PartScenario("seq", "queue-model%d" % i, [" ".join(o) for o in p]))
        ps, _ = graph.tours("ChainMC", CFG["chain"]([(2, 1), (1, 2), (2, 2)][rnd], 2), rng, 100, 150)
        for i, p in enumerate(ps):
            s = [" ".join(o) for o in p]
            out.append(PartScenario("seq", "chain-model%d" % i, [x for o in s for x in ([o, "blen"] if rng.random() < .2 else [o])] + ["blen", "bjoin", "bfree"]))
    for i in range(30 if tier == "quick" else 60):
        n = rng.choice([2, 5, 30, 199])
        where, s = {}, ["new"]
        for _ in range(rng.randrange(30, 150)):
            k = rng.randrange(1, n + 1)
            if k in where:
                s.append("qdel %d %d" % (where.pop(k), k))
            else:
                where[k] = rng.randrange(1, 4)
                s.append("%s %d %d" % (rng.choice(["qhead", "qtail"]), where[k], k))
            if rng.random() < .1:
                s.append("qlist %d" % rng.randrange(1, 4))
        out.append(PartScenario("seq", "queue%d" % i, s))
    for i in range(40 if tier == "quick" else 80):
        s = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            size = rng.choice([1, 2, 4, 8, 31, 33, 100, 480, 504, 505, 512, 1000, 1016, 4096, 16000, 20000, 1 << 20])
            s.append("anew %d" % size)
            m = 0
            for _ in range(rng.randrange(1, 40)):
                if rng.random() < .6:
                    s.append("apush")
                    m += 1
                else:
                    s.append("aget %d" % rng.choice([0, 1, m, m + 1, -1, rng.randrange(m + 1), 1 << 30, -(1 << 31)]))
            s += ["aget %d" % k for k in range(m + 2)]
        out.append(PartScenario("seq", "array%d" % i, s))
    for i in range(40 if tier == "quick" else 80):
        big = rng.random() < .1
        s, caps = [], []
        for _ in range(rng.randrange(20, 80) if not big else 12):
            r = rng.random()
            if not caps or (r < .15 and len(caps) < 20):
                c = rng.choice([1, 2, 7, 64, 100, 300] + ([4096, 12288, 16000] if big else []))
                if rng.random() < .1:
                    s.append("bnew %d" % rng.choice([16385, 20000, 1 << 20]))
                s.append("bnew %d" % c)
                caps.append(c)
            elif r < .55:
                k = len(caps) if rng.random() < .6 else rng.randrange(1, len(caps) + 1)
                c = caps[k - 1]
                s.append("bput %d %d" % (k, rng.choice([1, c, c + 1, max(1, c - 1), rng.randrange(1, c + 2)])))
            elif r < .75:
                k = rng.randrange(1, len(caps) + 1)
                s.append("btake %d %d" % (k, rng.randrange(caps[k - 1] + 1)))
            elif r < .82:
                s.append("bclr %d" % rng.randrange(1, len(caps) + 1))
            elif r < .86:
                s.append("bfree")
                caps = []
            else:
                s.append(rng.choice(["blen", "bjoin"]))
        s += ["blen", "bjoin", "bfree"]
        out.append(PartScenario("seq", "chain%d" % i, s))
    return out


# ---------------------------------------------------------------- logs
def log(rng, tier, rnd):
    def put(lv=None):
        return "put %s %d %d %d" % (lv or rng.choice(["error", "debug", "info"]),
                                    rng.choice([0, 1, 10, 80, 250, 300, 400, 430] + list(range(440, 470)) + [475, 500, 511, 512, 513, 1000, 5000]),
                                    rng.random() < .8, rng.random() < .2)
    out = []
    if rnd < 2:
        ps, _ = graph.tours("LogMC", CFG["log"](3 - rnd), rng, 60, 150)
        for i, p in enumerate(ps):
            s = [put(o[1]) if o[0] == "put" else "other %d" % i if o[0] == "other" else " ".join(o) for o in p]
            out.append(PartScenario("log", "log-model%d" % i, s))
    for i in range(60 if tier == "quick" else 120):
        s, t = [], rng.randrange(946684800000 + 86400000, 4102444800000)
        if rng.random() < .3:
            s += ["other 0"]
        s += ["zone %d" % rng.choice([0, 0, 60, 330, -210, 840, -720]), "time %d" % t, "new", "level %d" % rng.choice([-1, 0, 0, 1, 2, 255])]
        for _ in range(rng.randrange(10, 60)):
            r = rng.random()
            if r < .6:
                s.append(put())
            elif r < .75:
                t += rng.choice([1, 999, 1000, 60000, 86400000, 31 * 86400000, rng.randrange(1, 10 ** 8)])
                s.append("time %d" % t)
            else:
                s.append(rng.choice(["other %d" % rng.randrange(100), "reopen", "busy %d" % rng.randrange(2), "level %d" % rng.choice([-1, 0, 1, 2, 255])]))
        out.append(PartScenario("log", "log%d" % i, s + (["shut", put(), "reopen", put()] if rng.random() < .3 else [])))
    return out
