"""Behaviours of the session model (SessionMC.tla) as environments of the real worker."""
from scen import *
import graph
from gen_web import HTTP, HTTPS
from gen_life import base, twice, warm, newcomers, blob, dns_blob

CFG = """SPECIFICATION Spec
CONSTANTS Conns = {%s}
 Kinds = {%s}
 Shared = %s
 Patience = {%s}
 Trouble = {%s}
%s
CHECK_DEADLOCK FALSE
"""
CHECKED = "INVARIANTS Told Keyed Clear Paired Waits InTime\nPROPERTIES Dropped Kept Apart"
KINDS = {"s": '"tun", "web", "webs"', "m": '"tun", "web", "webs"', "c": '"app", "web", "webs"'}


def cfg(mode, n, checked=False, patience="0", trouble=""):
    return CFG % (", ".join('"%s"' % x for x in "abcd"[:n]), KINDS[mode], "TRUE" if mode == "m" else "FALSE", patience, '"%s"' % trouble if trouble else "", CHECKED if checked else "")

# the session model against the specification
REFINES = """SPECIFICATION MCSpec
CONSTANTS Conns = {"a"}
 Kinds = {%s}
 Shared = %s
 Patience = {0}
 Trouble = {%s}
 Mode = "%s"
 Flaw = "%s"
 Want = "%s"
 MaxNow = %d
 MaxBytes = %d
CONSTRAINT Small
INVARIANT %s
CHECK_DEADLOCK FALSE
"""


def refines(mode, now=10000, units=2, flaw="none", want="", trouble=""):
    return REFINES % (KINDS[mode], "TRUE" if mode == "m" else "FALSE", '"%s"' % trouble if trouble else "", mode, flaw, want, now, units, "Clean" if flaw == "none" else "Unseen")


class Player:
    """turns the steps of a behaviour into commands"""

    def __init__(self, b, rng):
        self.b, self.rng = b, rng
        self.n = self.nd = 0
        self.at = {}
        self.hurt, self.wild = [], []
        self.group, self.used = [], set()
        self.batching = rng.random() < .6
        b("policy inprog")

    def put(self, r, *cmds, alone=False):
        """commands of one step; steps of different connections may fall together"""
        key = r["c"] if r else None
        if alone or key in self.used or not self.batching or self.rng.random() < .5:
            self.flush()
        if alone:
            self.b(*cmds)
            return
        self.group += cmds
        self.used.add(key)
        if not self.batching:
            self.flush()

    def flush(self):
        if len(self.used) > 1:
            self.b("batch", *self.group)
            self.b("end")
        else:
            self.b(*self.group)
        self.group, self.used = [], set()

    def step(self, o):
        rng, b = self.rng, self.b
        if o[0] == "tick":
            k = rng.random()
            self.put(None, *(["adv 5000"] if k < .4 else ["adv 4999", "adv 1"] if k < .8 else ["adv 2500", "adv 2500"]), alone=True)
            return
        if o[0] == "start":
            return
        if o[0] == "connect":
            c, kind = "C%d" % self.n, o[2]
            self.n += 1
            self.at[o[1]] = r = {"c": c, "m": o[1], "kind": kind, "ph": "new", "u": None, "d": None, "rest": None, "blk": False, "pend": None}
            if b.mode == "m" and kind != "web":
                b.meta["kinds"][c] = "web" if kind == "webs" else "tun"
            port = {"tun": HTTPS if b.mode == "m" else 3333, "web": HTTP, "webs": HTTPS, "app": 1080}[kind]
            self.put(r, "conn %s %d %s" % (c, port, "tls nohs" if kind in ("tun", "webs") else "plain"), alone=True)
            return
        if o[0] == "short" and o[2] == "connect":
            self.at.setdefault(o[1], {"m": o[1], "c": ""})
        r = self.at[o[1]]
        getattr(self, "do_" + o[0])(r, *o[2:])

    # ---- the client
    def text(self, r, how):
        """the message the phase waits for"""
        if r["ph"] == "auth":
            return auth_header()
        if r["ph"] == "greet":
            return self.rng.choice([GREET, bytes([5, 3, 0, 1, 2])])
        if r["ph"] == "req":
            p = self.b.newport(r["c"])
            r["how"] = how
            if how == "ip":
                return req_ip("%d.2.3.4" % self.rng.choice([1, 10, 200]), p)
            self.nn = getattr(self, "nn", 0) + 1
            r["name"] = "s%d.example" % self.nn
            return req_dom(r["name"], p)
        keep = how == "keep"
        k = self.rng.random()
        # long enough for a shared port to tell what it is
        hs = [("User-Agent", "client of the model, one of several")]
        if k < .3:
            return self.b.request(r["c"], "/echo", meth="POST", body=self.rng.choice([1, 50, 3000]), keep=keep, headers=hs)
        return self.b.request(r["c"], self.rng.choice(["/f.html", "/big.bin", "/empty.css", "/none", "/echo"]), keep=keep, headers=hs)

    def do_half(self, r, how):
        if r["ph"] == "new":
            r["ph"] = "head"
        t = self.text(r, how)
        k = self.rng.choice([1, len(t) - 1, self.rng.randrange(1, len(t))])
        r["rest"] = t[k:]
        self.put(r, "send %s %s" % (r["c"], hx(t[:k])))

    def do_next(self, r, how):
        c = r["c"]
        if r["ph"] == "new" and r["kind"] in ("tun", "webs"):
            r["ph"] = "auth" if r["kind"] == "tun" else "head"
            self.put(r, "hs %s" % c)
            return
        if r["ph"] in ("new", "dial") and r["kind"] == "app":
            r["ph"] = "dial"
            self.dial(r)
            self.put(r, "send %s pat:%d" % (c, self.rng.choice([1, 100, 3000, 9000])))
            return
        if r["ph"] == "relay":
            self.put(r, "send %s pat:%d" % (c, self.rng.choice([1, 100, 5000, 20000])))
            return
        if r["ph"] == "new":
            r["ph"] = "head"
        t = r["rest"] if r["rest"] is not None else self.text(r, how)
        r["rest"] = None
        if r["ph"] == "req":
            if r["how"] == "ip":
                self.dial(r)
            else:
                self.flush()
                self.nd += 1
                r["d"], r["ph"] = "D%d" % self.nd, "resolve"
        else:
            r["ph"] = {"auth": "greet", "greet": "req", "head": "head"}[r["ph"]]
        self.put(r, "send %s %s" % (c, hx(t)))

    def dial(self, r):
        self.flush()             # outbound connections are numbered in the order they are made
        self.b.nup += 1
        r["u"], r["ph"] = "U%d" % self.b.nup, "dial"

    def do_bad(self, r):
        t = {"auth": [auth_header(b"notakey"), b"\xa0\x01\xbe\xee" + bytes(32)], "greet": [b"\x05\x00"],
             "req": [b"\x05\x02\x00\x01\x01\x02\x03\x04\x00\x50", b"\x04\x01\x00\x01\x01\x02\x03\x04\x00\x50", b"\x05\x01\x00\x04" + bytes(18)]}[r["ph"]]
        x = self.rng.choice(t)
        if r["ph"] == "auth" and self.b.mode == "m":
            x = t[0]
        self.put(r, "send %s %s" % (r["c"], hx(x)))

    def do_block(self, r):
        self.put(r, "room %s 0" % r["c"])

    def do_unblock(self, r):
        self.put(r, "room %s inf" % r["c"])

    def do_fin(self, r):
        tls = r["kind"] in ("tun", "webs") and r["ph"] != "new"
        self.put(r, "%s %s" % (self.rng.choice(["fin", "tlsclose"]) if tls else "fin", r["c"]))

    def do_rst(self, r):
        self.put(r, "rst %s" % r["c"])

    # ---- the other side
    def do_upok(self, r):
        if r["kind"] == "app":
            r["ph"] = "uhs"
            self.put(r, "hold %s" % r["u"], "dialres %s ok" % r["u"])
        else:
            r["ph"] = "relay"
            self.put(r, "dialres %s ok" % r["u"])

    def do_upfail(self, r):
        self.put(r, "dialres %s %s" % (r["u"], self.rng.choice(["refused", "unreach", "timeout"])))

    def do_upshake(self, r, how):
        if how == "bad":
            self.put(r, "flip %s %d" % (r["u"], self.rng.choice([0, 1, 5, 60])))
        r["ph"] = "relay"
        self.put(r, "unhold %s" % r["u"], alone=True)

    def do_upsend(self, r):
        self.put(r, "send %s pat:%d" % (r["u"], self.rng.choice([1, 100, 5000, 20000])))

    def do_upblock(self, r):
        self.put(r, "room %s 0" % r["u"])

    def do_upunblock(self, r):
        self.put(r, "room %s inf" % r["u"])

    def do_upfin(self, r):
        self.put(r, "fin %s" % r["u"])

    def do_uprst(self, r):
        self.put(r, "rst %s" % r["u"])

    def do_answer(self, r, how):
        if how == "address":
            self.dial(r)
        rr = [a_rr("%d.6.7.8" % self.rng.choice([5, 150]), self.rng.choice([0, 1, 60]))] if how == "address" else []
        self.put(r, "dnsreply %s %s" % (r["d"], dns_reply(r["name"], rr).hex()))


    # ---- trouble
    def do_short(self, r, *o):
        """the step runs out of memory somewhere"""
        self.flush()
        self.b("failalloc %d %d" % (self.rng.choice([1, 1, 1, 2, 2, 3, 4, 6]), self.rng.choice([1, 1, 2, 1000])))
        self.step([o[0], r["m"]] + list(o[1:]))
        self.flush()
        self.b("failalloc 0")
        self.hurt.append(self.at[r["m"]]["c"])

    def do_junk(self, r, who):
        rng, c = self.rng, r["c"]
        self.wild.append(c)
        tls = r["kind"] in ("tun", "webs")
        if who == "far":
            if r["ph"] == "resolve":
                for _ in range(rng.choice([1, 1, 3])):
                    self.put(r, "dnsreply %s %s" % (r["d"], dns_blob(rng, r["name"]).hex() or "-"))
                return
            c, tls = r["u"], r["kind"] == "app"
        elif r["kind"] == "app" and r["ph"] == "new":
            self.dial(r)         # whatever it sends first is relayed
        k = rng.random()
        if tls and k < .6:
            self.put(r, "raw %s %s" % (c, blob(rng, rng.choice([1, 5, 40, 700])).hex()))
        elif tls and k < .7 and r["ph"] != "new":
            self.put(r, "flip %s %d" % (c, rng.choice([0, 3, 5, 20])))
            self.put(r, "send %s pat:%d" % (c, rng.choice([1, 300])))
        elif r["ph"] != "new" or not tls:
            self.put(r, "send %s %s" % (c, hx(blob(rng, rng.choice([1, 36, 300, 5000])))))
        if rng.random() < .4:
            self.put(r, "%s %s" % (rng.choice(["fin", "rst"]), c))


def play(rng, name, mode, path, again=False):
    """again: the same once more, to see that nothing is left behind"""
    b = base(name, rng, mode)
    if rng.random() < .5:
        b("order %s" % rng.choice(["fifo", "lifo", "rand"]))
    if again:
        warm(b)
    p = Player(b, rng)

    def body(r, name):
        p.rng, p.batching = r, r.random() < .6
        for o in path:
            p.step(o)
        p.flush()
    if again:
        return twice(b, rng, body)
    body(rng, "C")
    return b.done()


def alone(rng, rnd, limit, length=40, again=False):
    """one connection at a time: paths that take every transition of the model"""
    mode = "smc"[rnd % 3]
    ps, st = graph.tours("SessionMC", cfg(mode, 1), rng, length, limit)
    return [play(rng, "alone%d%s" % (i, mode), mode, p, again) for i, p in enumerate(ps)]


def together(rng, rnd, num, depth=60, again=False):
    """several connections: random behaviours of the model"""
    mode = "smc"[rnd % 3]
    ps = graph.behaviours("SessionMC", cfg(mode, rng.choice([2, 2, 3]), patience="0, 4, 8, 12, 16"), rng, num, depth)
    return [play(rng, "together%d%s" % (i, mode), mode, p, again) for i, p in enumerate(ps)]


def troubled(rng, rnd, num, trouble, depth=60):
    """several connections, for some of them memory runs out or a peer sends nonsense"""
    mode = "smc"[rnd % 3]
    ps = graph.behaviours("SessionMC", cfg(mode, rng.choice([2, 3, 3]), patience="0, 4, 8, 12", trouble=trouble), rng, num, depth)
    out = []
    for i, path in enumerate(ps):
        b = base("%s%d%s" % (trouble, i, mode), rng, mode)
        b("seed %d" % rng.randrange(1 << 30))
        if trouble == "short":
            warm(b)
        p = Player(b, rng)
        if trouble == "short":
            # everything has been used once before
            for o in path:
                if o[0] == "short":
                    o = [o[2], o[1]] + list(o[3:])
                p.step(o)
            p.flush()
            b("adv 30000", "adv 70000", "mark x")
        early = set("C%d" % k for k in range(p.n))
        for o in path:
            p.step(o)
        p.flush()
        late = set("C%d" % k for k in range(p.n)) - early
        if trouble == "short":
            victims = newcomers(b, rng, mode) + sorted(late - set(p.hurt))
            b("adv 30000", "adv 70000")
            out.append(b.done(lift=["P23"], victims=victims, subjects=sorted(set(p.hurt))))
        else:
            victims = newcomers(b, rng, mode) + sorted(late - set(p.wild))
            out.append(b.done(lift=["P21"], victims=victims, wild=sorted(set(p.wild))))
    return out


def P21(rng, tier, rnd=0):
    return troubled(rng, rnd, 25, "junk")


def P23(rng, tier, rnd=0):
    return troubled(rng, rnd, 40, "short")


def P02(rng, tier, rnd=0):
    return together(rng, rnd, 12)


def P05(rng, tier, rnd=0):
    return together(rng, rnd, 12)


def P06(rng, tier, rnd=0):
    return alone(rng, rnd, 25) + together(rng, rnd, 15)


def P13(rng, tier, rnd=0):
    return alone(rng, rnd, 60) + together(rng, rnd, 20)


def P14(rng, tier, rnd=0):
    return alone(rng, rnd, 60, again=True) + together(rng, rnd, 15, again=True)
