"""Scenarios about the life of connections: silence, endings, neighbours, hostile input, memory shortage, ports."""
import random
from scen import *
import graph
from gen_tunnel import knobs, relay_ops, SIZES, ROOMS
from gen_web import site, rand_request, split_of, HTTP, HTTPS


class Peer:
    """a client that is brought into some phase and can go on from there"""

    def __init__(self, b, rng, c, phase):
        self.b, self.rng, self.c, self.phase = b, rng, c, phase
        self.u = self.d = None
        self.rest = b""            # what is left of the message being sent
        self.tport = b.tport
        if b.mode == "m":
            b.meta["kinds"][c] = "web" if phase.startswith("web") else "tun"
        getattr(self, "to_" + phase)()

    def more(self):
        """send a little more of the message being sent; False if nothing would be left"""
        if len(self.rest) < 2:
            return False
        self.b("send %s %s" % (self.c, hx(self.rest[:1])))
        self.rest = self.rest[1:]
        return True

    def cut(self, data, k=None):
        k = k if k is not None else self.rng.randrange(1, len(data))
        self.b("send %s %s" % (self.c, hx(data[:k])))
        self.rest = data[k:]

    # ---- tunnel ----
    def to_tun_none(self):
        self.b("conn %s %d tls nohs" % (self.c, self.tport))

    def to_tun_hs(self):
        self.b("conn %s %d tls hold" % (self.c, self.tport), "deliver %s %d" % (self.c, self.rng.choice([1, 5, 6, 50])))

    def to_tun_idle(self):
        self.b("conn %s %d tls" % (self.c, self.tport))

    def to_tun_hdr(self):
        self.to_tun_idle()
        self.cut(auth_header())

    def to_tun_auth(self):
        self.to_tun_idle()
        self.b("send %s %s" % (self.c, hx(auth_header())))

    def to_tun_greet(self):
        self.to_tun_auth()
        self.cut(bytes([5, 20]) + bytes(20))

    def to_tun_greply(self):
        self.to_tun_auth()
        self.b("room %s 0" % self.c, "send %s %s" % (self.c, hx(GREET)))

    def to_tun_greeted(self):
        self.to_tun_auth()
        self.b("send %s %s" % (self.c, hx(GREET)))

    def to_tun_req(self):
        self.to_tun_greeted()
        self.cut(req_ip("1.2.3.4", self.b.newport(self.c)) if self.rng.random() < .5 else req_dom("some.name.example", self.b.newport(self.c)))

    def to_tun_resolve(self):
        self.to_tun_greeted()
        self.b.ndns = getattr(self.b, "ndns", 0) + 1
        self.d = "D%d" % self.b.ndns
        self.name = "n%d.example" % self.b.ndns
        self.b("send %s %s" % (self.c, hx(req_dom(self.name, self.b.newport(self.c)))))

    def to_tun_dial(self):
        self.b("policy inprog")
        if self.rng.random() < .3:
            self.to_tun_resolve()
            self.b("dnsreply %s %s" % (self.d, dns_reply(self.name, [a_rr("5.6.7.8", 60)]).hex()))
        else:
            self.to_tun_greeted()
            self.b("send %s %s" % (self.c, hx(req_ip("1.2.3.4", self.b.newport(self.c)))))
        self.b("policy ok")
        self.b.nup += 1
        self.u = "U%d" % self.b.nup

    def to_tun_sreply(self):
        self.to_tun_greeted()
        self.b("room %s 0" % self.c)
        self.b("send %s %s" % (self.c, hx(req_ip("1.2.3.4", self.b.newport(self.c)))))
        self.b.nup += 1
        self.u = "U%d" % self.b.nup

    def to_tun_refused(self):
        """the target cannot be reached at once"""
        self.b("policy %s" % self.rng.choice(["refuse", "unreach"]))
        if self.rng.random() < .3:
            self.to_tun_resolve()
            self.b("dnsreply %s %s" % (self.d, dns_reply(self.name, [a_rr("5.6.7.8", 60)]).hex()))
        else:
            self.to_tun_greeted()
            self.b("send %s %s" % (self.c, hx(req_ip("1.2.3.4", self.b.newport(self.c)))))
        self.b("policy ok")
        self.b.nup += 1

    def to_relay(self):
        self.u = self.b.tunnel(self.c, port=self.tport)

    def to_relay_up(self):
        """bytes waiting for the target"""
        self.to_relay()
        self.b("room %s %d" % (self.u, self.rng.choice([0, 1, 100])), "send %s pat:%d" % (self.c, self.rng.choice([500, 9000, 30000])))

    def to_relay_down(self):
        self.to_relay()
        self.b("room %s %d" % (self.c, self.rng.choice([0, 1, 100])), "send %s pat:%d" % (self.u, self.rng.choice([500, 9000, 30000])))

    # ---- web ----
    def web_conn(self, opts=""):
        tls = self.rng.random() < .5
        self.b("conn %s %d %s %s" % (self.c, HTTPS if tls else HTTP, "tls" if tls else "plain", opts))

    def to_web_none(self):
        tls = self.rng.random() < .5
        self.b("conn %s %d %s" % (self.c, HTTPS if tls else HTTP, "tls nohs" if tls else "plain"))

    def to_web_hs(self):
        self.b("conn %s %d tls hold" % (self.c, HTTPS), "deliver %s %d" % (self.c, self.rng.choice([1, 5, 6, 50])))

    def to_web_head(self):
        self.web_conn()
        raw = self.b.request(self.c, "/f.html", keep=self.rng.random() < .5, headers=[("X-A", "y" * 100)])
        self.cut(raw)

    def to_web_body(self):
        self.web_conn()
        raw = self.b.request(self.c, "/echo", meth="POST", body=300, keep=self.rng.random() < .5)
        self.cut(raw, len(raw) - self.rng.randrange(50, 300))

    def to_web_rsp(self):
        self.web_conn()
        self.b("room %s %d" % (self.c, self.rng.choice([0, 1, 20, 1000])))
        self.b("send %s %s" % (self.c, hx(self.b.request(self.c, "/big.bin" if self.rng.random() < .5 else "/f.html", keep=self.rng.random() < .5))))

    def to_web_keep(self):
        self.web_conn()
        for _ in range(self.rng.choice([1, 1, 3])):
            self.b("send %s %s" % (self.c, hx(self.b.request(self.c, self.rng.choice(["/f.html", "/echo", "/none", "/empty.css"]), keep=True))))

    # ---- local role ----
    def to_app_none(self):
        self.b("conn %s 1080 plain" % self.c)

    def to_app_dial(self):
        self.b("policy inprog", "conn %s 1080 plain" % self.c, "send %s pat:%d" % (self.c, self.rng.choice([1, 100, 9000])), "policy ok")
        self.b.nup += 1
        self.u = "U%d" % self.b.nup

    def to_app_refused(self):
        self.b("policy %s" % self.rng.choice(["refuse", "unreach"]), "conn %s 1080 plain" % self.c, "send %s pat:50" % self.c, "policy ok")
        self.b.nup += 1

    def to_app_hs(self):
        self.to_app_dial()
        self.b("hold %s" % self.u, "dialres %s ok" % self.u)
        if self.rng.random() < .5:
            self.b("deliver %s %d" % (self.u, self.rng.choice([1, 5, 100])))

    def to_app_hdr(self):
        # the server stops accepting within what the TLS greeting and the header take
        self.b("uproom %d" % self.rng.choice([0, 100, self.rng.randrange(280, 480), self.rng.randrange(370, 440)]))
        self.b("policy ok", "conn %s 1080 plain" % self.c, "send %s pat:%d" % (self.c, self.rng.choice([1, 100, 9000])), "uproom inf")
        self.b.nup += 1
        self.u = "U%d" % self.b.nup

    def to_app_relay(self):
        self.u = self.b.app(self.c, first=self.rng.choice([1, 100, 9000]))

    def to_app_up(self):
        self.to_app_relay()
        self.b("room %s %d" % (self.u, self.rng.choice([0, 1, 100])), "send %s pat:%d" % (self.c, self.rng.choice([500, 9000, 30000])))

    def to_app_down(self):
        self.to_app_relay()
        self.b("room %s %d" % (self.c, self.rng.choice([0, 1, 100])), "send %s pat:%d" % (self.u, self.rng.choice([500, 9000, 30000])))


SERVER = ["tun_none", "tun_hs", "tun_idle", "tun_hdr", "tun_auth", "tun_greet", "tun_greply", "tun_greeted", "tun_req", "tun_resolve", "tun_dial",
          "tun_sreply", "relay", "relay_up", "relay_down"]
WEB = ["web_none", "web_hs", "web_head", "web_body", "web_rsp", "web_keep"]
LOCAL = ["app_none", "app_dial", "app_hs", "app_hdr", "app_relay", "app_up", "app_down"]
LIMIT = {"tun_none": 5000, "tun_hs": 5000, "web_none": 5000, "web_hs": 5000, "web_head": 5000, "web_body": 5000, "web_rsp": 5000, "web_keep": 5000,
         "tun_resolve": 5000, "app_none": 5000, "app_hs": 5000}


def base(name, rng, mode, **kw):
    if mode == "c":
        b = B(name, mode="c", rng=rng, http=[HTTP], https=[HTTPS], **kw)
        b("uptls 1")
    else:
        b = B(name, mode=mode, rng=rng, http=[HTTP], https=[HTTPS], **kw)
    b.file("f.html", rng.choice([10, 3000]))
    b.file("big.bin", rng.choice([17000, 50000]))
    b.file("empty.css", 0)
    return b


def phases(mode):
    return (LOCAL if mode == "c" else SERVER) + WEB


def nudge(p):
    """one step of progress that leaves the peer in its phase; False if there is none"""
    b, rng = p.b, p.rng
    if p.phase in ("tun_hdr", "tun_greet", "web_head", "web_body"):
        return p.more()
    if p.phase == "tun_req":
        return p.more()
    if p.phase == "web_keep":
        b("send %s %s" % (p.c, hx(b.request(p.c, rng.choice(["/f.html", "/echo"]), keep=True))))
        return True
    if p.phase == "web_rsp":
        b("room %s +%d" % (p.c, rng.choice([1, 50])))
        return True
    if p.phase in ("relay", "app_relay"):
        b("send %s pat:%d" % (rng.choice([p.c, p.u]), rng.choice([1, 100, 5000])))
        return True
    if p.phase in ("relay_up", "app_up"):
        if rng.random() < .5:
            b("room %s +%d" % (p.u, rng.choice([1, 50])))
        else:
            b("send %s pat:%d" % (p.u, rng.choice([1, 100])))
        return True
    if p.phase in ("relay_down", "app_down"):
        if rng.random() < .5:
            b("room %s +%d" % (p.c, rng.choice([1, 50])))
        else:
            b("send %s pat:%d" % (p.c, rng.choice([1, 100])))
        return True
    return False


# ---------------------------------------------------------------- P13
def silence(rng, i, mode, phase=None):
    """progress within the limit for a while, then silence beyond it"""
    b = base("silence%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    ps = []
    n = rng.choice([1, 2, 4])
    for j in range(n):
        ph = phase if phase and j == 0 else rng.choice(phases(mode))
        ps.append(Peer(b, rng, "C%d" % j, ph))
        if rng.random() < .4:
            b("adv %d" % rng.choice([1, 500, 2000]))
    lim = LIMIT.get(ps[0].phase, 10000)
    if mode == "m" and ps[0].phase in ("tun_idle", "tun_hdr"):
        lim = 5000
    for _ in range(rng.randrange(0, 6)):
        b("adv %d" % rng.choice([lim - 1, lim - 1, lim - 200, lim // 2, 3]))
        for p in ps:
            if p is ps[0] or rng.random() < .5:
                nudge(p)
    k = rng.random()
    if k < .5:
        b("adv %d" % (lim - 1), "adv 1", "adv 1", "adv 300")
    elif k < .8:
        for _ in range(8):
            b("adv %d" % rng.choice([700, 1300, 2600]))
    return b.done()


def crowd(rng, i, mode):
    """many connections started at different times, some going on and some not"""
    b = base("crowd%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    ps = []
    for j in range(rng.choice([12, 25])):
        ps.append(Peer(b, rng, "C%d" % j, rng.choice(phases(mode))))
        if rng.random() < .5:
            b("adv %d" % rng.choice([1, 50, 333]))
    keep = rng.sample(ps, min(len(ps), 4))
    for _ in range(rng.randrange(4, 10)):
        b("adv %d" % rng.choice([400, 900, 1900, 3100]))
        for p in keep:
            if rng.random() < .8:
                nudge(p)
    return b.done()


def steps(rng, i, kind):
    """each step taken at the last moment, none at all from some step on"""
    b = base("steps%d%s" % (i, kind), rng, "c" if kind == "local" else rng.choice("ssm"))
    shared = b.mode == "m"
    if shared:
        b.meta["kinds"]["C0"] = "web" if kind == "web" else "tun"
    c = "C0"
    todo = []                   # (how long it may wait, what it does)
    if kind == "local":
        b("policy inprog", "conn %s 1080 plain" % c)
        todo += [(5000, ["hold U1", "send %s pat:%d" % (c, rng.choice([1, 500]))]), (10000, ["dialres U1 ok"])]
        todo += [(5000, ["deliver U1 %d" % rng.choice([1, 100])])] if rng.random() < .5 else []
        todo += [(5000, ["unhold U1"])]
        u = "U1"
    elif kind == "web":
        tls = rng.random() < .5
        b("conn %s %d %s" % (c, HTTPS if tls else HTTP, "tls nohs" if tls else "plain"))
        if tls:
            todo.append((5000, ["hs %s" % c]))
        for _ in range(rng.choice([1, 2, 3])):
            t = rng.choice(["/f.html", "/big.bin", "/echo", "/none", "/empty.css"])
            body = rng.choice([None, 50])if t == "/echo" else None
            raw = b.request(c, t, keep=True, meth="POST" if body else "GET", body=body)
            if rng.random() < .4:
                todo.append((5000, ["room %s %d" % (c, rng.choice([0, 1, 60, 3000]))]))
            o = 0
            for n in rand_cuts(rng, len(raw), rng.choice([0, 1, 2])):
                todo.append((5000, ["send %s %s" % (c, hx(raw[o:o + n]))]))
                o += n
            if any("room" in x[1][0] for x in todo):
                for _ in range(rng.choice([0, 1, 2])):
                    todo.append((5000, ["room %s +%d" % (c, rng.choice([100, 1000]))]))
                todo.append((5000, ["room %s inf" % c]))
        u = None
    else:
        b("policy inprog", "conn %s %d tls%s" % (c, b.tport, rng.choice(["", " nohs"])))
        if " nohs" in b.s[-1]:
            todo.append((5000, ["hs %s" % c]))
        for x in (auth_header(), GREET):
            o = 0
            for n in rand_cuts(rng, len(x), rng.choice([0, 0, 1])):
                todo.append((5000 if shared and x is not GREET else 10000, ["send %s %s" % (c, hx(x[o:o + n]))]))
                o += n
            if x is GREET and rng.random() < .3:
                todo[-1][1].insert(0, "room %s 0" % c)
                todo.append((10000, ["room %s inf" % c]))
        dom = rng.random() < .4
        x = req_dom("steps.example", b.newport(c)) if dom else req_ip("1.2.3.4", b.newport(c))
        o = 0
        for n in rand_cuts(rng, len(x), rng.choice([0, 0, 1, 2])):
            todo.append((10000, ["send %s %s" % (c, hx(x[o:o + n]))]))
            o += n
        if dom:
            todo.append((5000, ["dnsreply D1 %s" % dns_reply("steps.example", [a_rr("5.6.7.8", 60)]).hex()]))
        if rng.random() < .5:
            todo.append((10000, ["room %s 0" % c, "dialres U1 ok"]))
            todo.append((10000, ["room %s inf" % c]))
        else:
            todo.append((10000, ["dialres U1 ok"]))
        u = "U1"
    if u:
        for _ in range(rng.choice([1, 2, 4])):
            x = rng.choice([c, u])
            todo.append((10000, ["send %s pat:%d" % (x, rng.choice([1, 100, 9000]))]))
    stop = len(todo) if rng.random() < .5 else rng.randrange(len(todo))
    for lim, cmds in todo[:stop]:
        b("adv %d" % rng.choice([lim - 1, lim - 1, lim - 1, lim - 300, lim // 2, 1]))
        b(*cmds)
    lim = todo[stop][0] if stop < len(todo) else (10000 if u else 5000)
    b("adv %d" % (lim - 1), "adv 1", "adv 1", "adv 300")
    return b.done()


def P13(rng, tier, rnd=0):
    out = [steps(rng, i, rng.choice(["server", "server", "web", "local"])) for i in range(30)]
    for k, ph in enumerate(SERVER + WEB):
        for r in range(2):
            out.append(silence(rng, 10 * k + r, "m" if r else "s", ph))
    for k, ph in enumerate(LOCAL):
        for r in range(3):
            out.append(silence(rng, 10 * k + r, "c", ph))
    out += [crowd(rng, i, "csm"[i % 3]) for i in range(6)]
    return out


# ---------------------------------------------------------------- P14
def end_peer(p, kinds=None):
    b, rng = p.b, p.rng
    ends = ["fin", "rst", "timeout", "finish"]
    if p.phase not in ("tun_none", "tun_hs", "web_none", "web_hs") and not p.phase.startswith("app"):
        ends += ["tlsclose", "junk"]
    if p.u:
        ends += ["ufin", "urst", "ufin"]
        if p.phase in ("tun_dial", "app_dial"):
            ends = ["fin", "rst", "timeout", "urefused", "uunreach", "utimeout"]
        if p.phase == "app_hs":
            ends += ["uunhold", "uflip"]
    if p.phase == "tun_resolve":
        ends += ["dnsbad", "dnsok", "dnsempty", "dnsok"]
    k = rng.choice(ends)
    tls = any(s.startswith("conn %s " % p.c) and " tls" in s for s in b.s)
    if k == "fin":
        b("fin %s" % p.c)
    elif k == "rst":
        b("rst %s" % p.c)
    elif k == "tlsclose":
        b(("tlsclose %s" if tls else "fin %s") % p.c)
    elif k == "junk":
        if tls:
            b("raw %s %s" % (p.c, rng.choice(["17030300050102030405", "ff" * 30, "150303000102"])))
        else:
            b("fin %s" % p.c)
    elif k == "finish":
        if p.rest:
            b("send %s %s" % (p.c, hx(p.rest)))
            p.rest = b""
            if p.phase == "tun_req":
                # a name of its own only if a query follows; leave it pending
                b("adv 1")
        else:
            b("room %s inf" % p.c)
            b("fin %s" % p.c)
    elif k == "ufin":
        b("fin %s" % p.u)
    elif k == "urst":
        b("rst %s" % p.u)
    elif k in ("urefused", "uunreach", "utimeout"):
        b("dialres %s %s" % (p.u, k[1:]))
    elif k == "uunhold":
        b("unhold %s" % p.u)
    elif k == "uflip":
        b("flip %s %d" % (p.u, rng.choice([0, 3, 9, 60])), "unhold %s" % p.u)
    elif k == "dnsbad":
        b("dnsreply %s %s" % (p.d, dns_reply(p.name, []).hex()))
    elif k == "dnsempty":
        b("dnsreply %s -" % p.d)
    elif k == "dnsok":
        b("dnsreply %s %s" % (p.d, dns_reply(p.name, [a_rr("5.6.7.8", rng.choice([0, 5, 60]))]).hex()))
        b.nup += 1
        p.u = "U%d" % b.nup
        if rng.random() < .5:
            b("fin %s" % rng.choice([p.c, p.u]))
    elif k == "timeout":
        b("adv %d" % rng.choice([5000, 10000, 12000]))
    return k


def warm(b):
    """more connections at once than will be open later, so that what is kept for reuse is there"""
    qs = []
    for j in range(6):
        c = "Q%d" % j
        u = b.tunnel(c, ip="7.7.8.%d" % j) if b.mode != "c" else b.app(c)
        qs += [c, u]
    for j in range(8):
        c = "Q%d" % (j + 6)
        b("conn %s %d plain" % (c, HTTP), "send %s %s" % (c, hx(b.request(c, "/f.html", keep=True))))
        if j < 3:
            b("send %s %s" % (c, hx(b.request(c, "/echo", meth="POST", body=50))))
        qs.append(c)
    b("batch", *["send %s pat:9000" % c for c in qs[:12]])
    b("end", "batch", *["fin %s" % c for c in qs])
    b("end")


def twice(b, rng, body, **kw):
    """the same again, once everything has been used: it must leave things as it found them"""
    seed = rng.randrange(1 << 30)
    for name in ("C", "R"):
        b.rng = r = random.Random(seed)
        b("seed %d" % (seed & 0xffff))
        body(r, name)
        # long enough for every limit and for remembered answers to be dropped
        b("adv 30000", "adv 70000")
        if name == "C":
            b("mark x")
    b.rng = rng
    return b.done(**kw)


def endings(rng, i, mode, first=None):
    """sessions that end in every phase, for every reason, one after another or together"""
    b = base("endings%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    warm(b)

    def body(rng, name):
        live = []
        for j in range(rng.randrange(2, 7)):
            ph = first if first and j == 0 else rng.choice(phases(mode) + ["app_refused" if mode == "c" else "tun_refused"])
            live.append(Peer(b, rng, "%s%d" % (name, j), ph))
            while live and (len(live) > 3 or rng.random() < .6):
                end_peer(live.pop(rng.randrange(len(live))))
                if rng.random() < .2:
                    b("adv %d" % rng.choice([1, 6, 5200]))
        for q in live:
            end_peer(q)
    return twice(b, rng, body)


def worn(rng, i):
    """the same kinds of session again and again"""
    mode = "csms"[i % 4]
    b = base("worn%d" % i, rng, mode)
    kinds = rng.sample(phases(mode) + ["app_refused" if mode == "c" else "tun_refused"], 2)
    warm(b)

    def body(rng, name):
        for j in range(12):
            end_peer(Peer(b, rng, "%s%d" % (name, j), kinds[j % 2]))
            b("adv 11000") if rng.random() < .5 else None
    return twice(b, rng, body)


def certless(rng, i):
    """connections that come while the certificate or its key cannot be read; a program may have read it before"""
    mode = "sm"[i % 2]
    b = base("certless%d" % i, rng, mode)
    warm(b)
    num = rng.randrange(1, 5)
    what = rng.choice(["cert.pem", "key.pem"])

    def body(rng, name):
        end_peer(Peer(b, rng, name + "a", rng.choice(phases(mode))))
        b("hide %s" % what)
        cs = ["%sh%d" % (name, k) for k in range(num)]
        for c in cs:
            b("conn %s %d tls%s" % (c, rng.choice([HTTPS, HTTPS if mode == "m" else 3333]), rng.choice(["", " nohs"])))
        b("adv 6000") if rng.random() < .5 else None
        for c in cs:
            b("%s %s" % (rng.choice(["fin", "rst"]), c))
        b("unhide %s" % what)
        end_peer(Peer(b, rng, name + "z", rng.choice(phases(mode))))
    return twice(b, rng, body, wild=["%sh%d" % (n, k) for n in "CR" for k in range(num)])


def stopped(rng, i):
    """a stop request with connections in every phase"""
    mode = "csms"[i % 4]
    b = base("stopped%d" % i, rng, mode)
    for j in range(rng.randrange(1, 6)):
        Peer(b, rng, "C%d" % j, rng.choice(phases(mode)))
    b("stop")
    return b.done()


def P14(rng, tier, rnd=0):
    out = [endings(rng, k, "sm"[(k + rnd) % 2], ph) for k, ph in enumerate(SERVER + WEB)]
    out += [endings(rng, 100 + k, "sm"[k % 2]) for k in range(16)]
    out += [endings(rng, 200 + k, "c", LOCAL[k % len(LOCAL)]) for k in range(12)]
    out += [worn(rng, i) for i in range(6)] + [stopped(rng, i) for i in range(6)] + [certless(rng, i) for i in range(6)] + cuts(rng, rnd, 15, ["P14"])
    return out


# ---------------------------------------------------------------- P16
def neighbours(rng, i, mode):
    """well-behaved sessions beside ones that end, time out or misbehave, with readiness reported together"""
    b = base("neighbours%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    b("order rand") if rng.random() < .6 else None
    nv = rng.choice([1, 2, 3])
    vs = []
    for j in range(nv):
        if rng.random() < .3:
            c = "W%d" % j
            tls = rng.random() < .5
            b("conn %s %d %s" % (c, HTTPS if tls else HTTP, "tls" if tls else "plain"))
            vs.append((c, None))
        else:
            c = "V%d" % j
            vs.append((c, b.tunnel(c, ip="7.7.7.%d" % j) if mode != "c" else b.app(c)))
    bad = []
    nb = 0
    for _ in range(rng.randrange(3, 9)):
        for _ in range(rng.choice([0, 1, 2, 3])):
            bad.append(Peer(b, rng, "C%d" % nb, rng.choice(phases(mode))))
            nb += 1
        b("batch")
        acts = []
        for c, u in vs:
            if u is None:
                acts.append(lambda c=c: b("send %s %s" % (c, hx(b.request(c, rng.choice(["/f.html", "/big.bin", "/echo", "/no"]), keep=True)))))
            else:
                for x in rng.sample([c, u], rng.choice([1, 2])):
                    acts.append(lambda x=x: b("send %s pat:%d" % (x, rng.choice(SIZES[:16]))))
        for p in rng.sample(bad, min(len(bad), rng.choice([0, 1, 2, 4]))):
            bad.remove(p)
            acts.append(lambda p=p: brutal(p))
        rng.shuffle(acts)
        for a in acts:
            a()
        b("end")
        if rng.random() < .5:
            b("adv %d" % rng.choice([1, 1000, 4000]))
    return b.done(lift=["P16"], victims=[c for c, u in vs])


def brutal(p):
    """an ending without passage of time, fit for a batch"""
    b, rng = p.b, p.rng
    xs = [p.c] + ([p.u] if p.u and p.phase not in ("tun_dial", "app_dial") else [])
    for x in rng.sample(xs, rng.choice([1, len(xs)])):
        b((rng.choice(["fin %s", "rst %s", "rst %s"])) % x)


def together(rng, i, mode):
    """both legs of several sessions report readiness at once while some of them end"""
    b = base("together%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    b("order rand")
    n = rng.choice([2, 3, 4])
    legs = []
    for j in range(n):
        c = "V%d" % j
        legs.append((c, b.tunnel(c, ip="7.7.7.%d" % j) if mode != "c" else b.app(c)))
    alive = list(legs)
    while alive:
        b("batch")
        gone = rng.choice(alive)
        todo = []
        for c, u in alive:
            for x in (c, u):
                if rng.random() < .7:
                    todo.append("send %s pat:%d" % (x, rng.choice(SIZES[:14])))
        rng.shuffle(todo)
        k = rng.randrange(0, len(todo) + 1)
        xs = rng.choice([[gone[0]], [gone[1]], [gone[0], gone[1]]])
        b(*todo[:k])
        for x in xs:
            b(rng.choice(["fin %s", "rst %s"]) % x)
        b(*[t for t in todo[k:] if t.split()[1] not in xs])
        b("end")
        alive.remove(gone)
    return b.done(lift=["P16"])


def waiting(rng, i):
    """connections waiting for names and targets while others come and go"""
    b = base("waiting%d" % i, rng, rng.choice("sm"))
    knobs(b, rng)
    b("order rand")
    ps = [Peer(b, rng, "C%d" % j, rng.choice(["tun_resolve", "tun_dial"])) for j in range(rng.choice([3, 5, 8]))]
    rng.shuffle(ps)
    b("batch")
    for p in ps:
        k = rng.random()
        if k < .35:
            b(rng.choice(["fin %s", "rst %s"]) % p.c)
        elif p.phase == "tun_dial":
            b("dialres %s %s" % (p.u, rng.choice(["ok", "ok", "refused"])))
        else:
            b("dnsreply %s %s" % (p.d, dns_reply(p.name, [a_rr("5.6.7.8", rng.choice([0, 5, 60]))] if rng.random() < .7 else []).hex()))
    b("end")
    return b.done(lift=["P16"])


def arrivals(rng, i, mode):
    """connections that arrive together, some of them gone again at once"""
    b = base("arrivals%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    b("order rand") if rng.random() < .6 else None
    b("batch")
    n = rng.choice([2, 3, 6, 10])
    ws = []
    for j in range(n):
        c = "W%d" % j
        k = rng.random()
        if k < .5:
            b("conn %s %d plain" % (c, HTTP))
        else:
            b("conn %s %d tls" % (c, HTTPS))
        if rng.random() < .3:
            b("%s %s" % (rng.choice(["fin", "rst"]), c))
        else:
            ws.append(c)
    if rng.random() < .4:
        b("accfail abort %d" % rng.choice([1, 1, 2]))
    b("end", "accfail abort 0")
    rng.shuffle(ws)
    for c in ws:
        b("send %s %s" % (c, hx(b.request(c, rng.choice(["/f.html", "/echo", "/no"]), keep=rng.random() < .5))))
    return b.done(lift=["P16"])


EVENTS = """SPECIFICATION Spec
CONSTANTS Pairs = %d
 News = %d
 Wakes = %d
 Forget = "%s"
%s
CHECK_DEADLOCK FALSE
"""


def event_cfg(pairs, news, wakes, checked=False, forget="none"):
    return EVENTS % (pairs, news, wakes, forget, "INVARIANTS NoStale AllTold Records" if checked else "")


def wakeups(rng, rnd, num):
    """wake-ups of the event model: what happens to which leg, in which order"""
    pairs, news = rng.choice([(2, 1), (2, 2), (3, 1), (3, 2)])
    ps = graph.behaviours("EventMC", event_cfg(pairs, news, 3), rng, num, 45)
    out = []
    for i, p in enumerate(ps):
        mode = "scm"[(i + rnd) % 3]
        b = base("wakeups%d%s" % (i, mode), rng, mode)
        knobs(b, rng)
        b("order %s" % rng.choice(["fifo", "fifo", "lifo"]))
        name = {}
        for j in range(pairs):
            c = "V%d" % j
            name[2 * j + 1], name[2 * j + 2] = c, (b.tunnel(c, ip="7.7.7.%d" % j) if mode != "c" else b.app(c))
        dead, k = set(), 0
        while k < len(p):
            wake = []
            while k < len(p) and p[k][0] != "wake":
                if p[k][0] in ("happen", "arrive"):
                    wake.append(p[k])
                k += 1
            k += 1
            wake = [o for o in wake if o[0] == "arrive" or name[int(o[1])] not in dead]
            # legs that will have room again have none now, and something waits for them
            full = [int(o[1]) for o in wake if o[0] == "happen" and o[2] in ("room", "both") and int(o[1]) <= 2 * pairs]
            for l in full:
                b("room %s 0" % name[l])
            for l in full:
                o = l + 1 if l % 2 else l - 1
                if o not in full:
                    b("send %s pat:%d" % (name[o], rng.choice([1, 100, 9000, 30000])))
            gone = set()
            b("batch")
            for o in wake:
                l = int(o[1])
                if o[0] == "arrive":
                    name[l] = "W%d" % l
                    b("conn W%d %d plain" % (l, HTTP))
                    continue
                x = name[l]
                if l > 2 * pairs and o[2] in ("data", "room"):
                    b("send %s %s" % (x, hx(b.request(x, rng.choice(["/f.html", "/echo"]), keep=True))))
                    continue
                if o[2] in ("room", "both") and l <= 2 * pairs:
                    b("room %s inf" % x)
                if o[2] == "data":
                    b("send %s pat:%d" % (x, rng.choice(SIZES[:14])))
                if o[2] in ("end", "both"):
                    b(rng.choice(["fin %s", "rst %s"]) % x)
                    gone |= {x} if l > 2 * pairs else {x, name[l + 1 if l % 2 else l - 1]}
            b("end")
            for l in full:
                b("room %s inf" % name[l])
            dead |= gone
        for l, x in sorted(name.items()):
            if x not in dead and l <= 2 * pairs:
                b("send %s pat:%d" % (x, rng.choice([1, 500])))
            elif x not in dead:
                b("send %s %s" % (x, hx(b.request(x, "/f.html"))))
        out.append(b.done(lift=["P16"]))
    return out


def P16(rng, tier, rnd=0):
    return (wakeups(rng, rnd, 20) + [arrivals(rng, i, "scm"[i % 3]) for i in range(12)] + [neighbours(rng, i, "scsm"[i % 4]) for i in range(36)] +
            [together(rng, i, "scsm"[i % 4]) for i in range(24)] +
            [waiting(rng, i) for i in range(12)])


# ---------------------------------------------------------------- P21
def blob(rng, n=None):
    n = n or rng.choice([1, 2, 5, 30, 36, 100, 500, 3000, 9000, 20000])
    k = rng.random()
    if k < .3:
        return bytes(rng.randrange(256) for _ in range(n))
    if k < .5:
        return bytes([rng.choice([0, 255, 32, 10, 13, 47, 46, 58])]) * n
    if k < .7:
        return bytes(rng.choice(b"GET /.. HTTP\r\n: x") for _ in range(n))
    return bytes(rng.choice([0, 1, 5, 3, 255, 22, 23]) for _ in range(n))


def mangle(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not d:
            break
        k = rng.random()
        i = rng.randrange(len(d))
        if k < .4:
            d[i] = rng.choice([0, 255, rng.randrange(256), 10, 13, 32])
        elif k < .55:
            del d[i:i + rng.choice([1, 2, 10])]
        elif k < .7:
            d[i:i] = blob(rng, rng.choice([1, 4, 50]))
        elif k < .8:
            d = d[:i]
        elif k < .9:
            d[i:i] = d[:rng.randrange(1, 40)]
        else:
            d += blob(rng, rng.choice([1, 100, 5000]))
    return bytes(d)


def http_blob(rng, b):
    heads = ["GET / HTTP/1.1", "GET /f.html HTTP/1.1", "POST /echo HTTP/1.1", "GET http://h:1/f.html HTTP/1.0", "OPTIONS * HTTP/1.1", "GET", "G /",
             "HEAD /f.html HTTP/1.1", "GET /" + "a" * rng.choice([10, 2000, 4080, 5000]) + " HTTP/1.1", "get /f.html http/1.1", "GET  /f.html  HTTP/1.1",
             "GET x://y HTTP/1.1", "GET :// HTTP/1.1", "GET http:/f HTTP/1.1", "A" * rng.choice([16, 17, 40, 5000]) + " / HTTP/1.1"]
    hs = ["Connection: Keep-Alive", "Connection:", ": x", "Content-Length: 0", "Content-Length: -1", "Content-Length: 99999999999999999999",
          "Content-Length: 10485761", "Content-Length: 16384", "Content-Length: 20000", "Content-Length: abc", "Content-Length: 5", "Content-Length:5",
          "X" * rng.choice([1, 300, 4000]), "X-Y: " + "v" * rng.choice([0, 1, 1000, 4100]), "Transfer-Encoding: chunked", "Range: bytes=0-1", "a:b:c", " :"]
    nl = "\r\n" if rng.random() < .9 else rng.choice(["\n", "\r", "\n\r"])
    s = rng.choice(heads) + nl
    for _ in range(rng.choice([0, 1, 2, 5, 15, 16, 17, 40])):
        s += rng.choice(hs) + nl
    s += nl
    raw = s.encode("latin1")
    if rng.random() < .5:
        raw += blob(rng)
    if rng.random() < .3:
        raw = mangle(rng, raw)
    if rng.random() < .3:
        raw *= rng.choice([2, 5])
    return raw


EDGE = [1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 3000, 4000]


def http_edge(rng):
    """a well-formed request that is extreme in one respect"""
    meth, target, ver, hs, body = "GET", "/f.html", "HTTP/1.1", ["Host: h"], b""
    k = rng.randrange(12)
    n = rng.choice(EDGE)
    if k <= 1:
        hs = ["X-%d: v%d" % (j, j) for j in range(rng.choice([14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 64, 65, 100, 128, 129, 256, 300]))]
    elif k == 2:
        hs.append("X" * n + ": v")
    elif k == 3:
        hs.append("X: " + "v" * n)
    elif k == 4:
        meth = "M" * min(n, 300)
    elif k == 5:
        target = rng.choice(["/", "/f.html?", "/x.", "/x/", "/a//", "/%41"]) + "u" * n
    elif k == 6:
        target = rng.choice(["http://", "https://", "x://"]) + "h" * n + rng.choice(["/f.html", ":80/f.html", ":99999999999/f.html", "", "/"])
    elif k == 7:
        target = "s" * n + "://h/f.html"
    elif k == 8:
        ver = rng.choice(["HTTP/9.9", "HTTP/0.0", "HTTP/1", "HTTP/11.1", "HTTP/1.", "HTTP/.1", "H", "HTTP/" + "1" * n])
    elif k == 9:
        meth, target, body = "POST", "/echo", b"b" * n
        hs.append("Content-Length: %s" % rng.choice([str(n), "0" * 30 + str(n), "+%d" % n, " %d " % n, str(n + (1 << 32)), str(n - (1 << 32))]))
    elif k == 10:
        # the whole head about as long as what is read at once
        room = rng.choice([2047, 2048, 2049, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12288, 16384, 16385])
        hs.append("X: " + "v" * max(0, room - len("GET /f.html HTTP/1.1\r\nHost: h\r\nX: \r\n\r\n")))
    else:
        hs = [rng.choice(["Connection", "Content-Length", "Host"]) + ":" + " " * rng.choice([0, 1, n]) + rng.choice(["", "v", "close", "Keep-Alive", "7"])] * rng.choice([1, 2, 20])
    if rng.random() < .5:
        hs.append("Connection: Keep-Alive")
    one = ("%s %s %s\r\n%s\r\n\r\n" % (meth, target, ver, "\r\n".join(hs))).encode("latin1") + body
    return one * rng.choice([1, 1, 2])


def socks_blob(rng):
    h = auth_header() if rng.random() < .7 else mangle(rng, auth_header())
    g = rng.choice([GREET, bytes([5, 255]) + bytes(255), bytes([5, 0]), b"\5", bytes([4, 1, 0])])
    r = rng.choice([req_ip("1.2.3.4", 80), req_dom("a.example", 80), bytes([5, 1, 0, 4]) + bytes(18), req_dom(b"", 80), req_dom(b"\0" * 255, 80),
                    req_dom(b"." * 255, 80), req_dom(b"a" * 255, 80), req_dom(b"a." * 127, 80), bytes([5, 1, 0, 3, 255]) + b"b" * 10])
    return [x if rng.random() < .75 else mangle(rng, x) for x in (h, g, r)]


def dns_blob(rng, name):
    import gen_socks
    k = rng.random()
    good = dns_reply(name, [a_rr("5.6.7.8", rng.choice([0, 60, 0xffffffff]))] * rng.choice([1, 1, 3, 20]))
    if k < .2:
        return blob(rng, rng.choice([1, 11, 12, 13, 30, 512, 1500, 4000]))
    if k < .5:
        return mangle(rng, good)
    if k < .6:
        return dns_reply(name, [rr(b"\xc0\x0c", 5, 60, qname("x.y")), a_rr("9.9.9.9")], counts=(rng.choice([0, 1, 2, 3, 65535]), 0, 0))
    if k < .7:
        return dns_reply(name, [rr(bytes([0xc0, rng.choice([0, 12, 28, 40, 255])]), 1, 60, b"\1\2\3\4")])
    if k < .8:
        return dns_reply(name, [rr(bytes([63]) + b"a" * rng.choice([5, 63]), 1, 60, b"\1\2\3\4")])
    if k < .9:
        return good[:rng.randrange(len(good))]
    return good


def hostile(rng, i, mode):
    b = base("hostile%d%s" % (i, mode), rng, mode)
    knobs(b, rng)
    wild = []
    n = rng.choice([1, 2, 3, 5])
    for j in range(n):
        c = "X%d" % j
        k = rng.random()
        if mode == "c":
            if k < .3:
                # a hostile server behind the local role
                u = b.app(c, first=rng.choice([1, 500, 9000]))
                p = rng.random()
                if p < .3:
                    b("raw %s %s" % (u, blob(rng, rng.choice([1, 5, 100, 3000])).hex()))
                elif p < .6:
                    b("send %s pat:%d" % (u, rng.choice(SIZES)), "raw %s %s" % (u, blob(rng, 20).hex()))
                elif p < .8:
                    b("send %s pat:%d" % (u, rng.choice(SIZES)), "rst %s" % u)
                else:
                    b("fin %s" % u, "send %s pat:100" % c)
                wild.append(c)
                continue
            port, kind = rng.choice([(HTTP, "plain"), (HTTPS, "tls"), (1080, "tls"), (HTTP, "tls"), (HTTPS, "plain")])
        elif mode == "m":
            port, kind = rng.choice([(HTTPS, "tls"), (HTTPS, "tls"), (HTTPS, "tls"), (HTTPS, "plain"), (HTTP, "plain"), (HTTP, "tls")])
        else:
            port, kind = rng.choice([(3333, "tls"), (3333, "tls"), (3333, "plain"), (HTTP, "plain"), (HTTPS, "tls"), (HTTPS, "plain"), (HTTP, "tls")])
        wild.append(c)
        if kind == "tls" and rng.random() < .2:
            b("conn %s %d tls nohs" % (c, port))
            b("raw %s %s" % (c, mangle(rng, bytes.fromhex("16030100f0010000ec0303")).hex() or "00"))
        elif kind == "tls" and rng.random() < .15:
            b("conn %s %d tls hold" % (c, port), "flip %s %d" % (c, rng.randrange(200)), "unhold %s" % c)
        else:
            b("conn %s %d %s" % (c, port, kind))
        if rng.random() < .2:
            b("room %s %d" % (c, rng.choice([0, 1, 30])))
        if (port == 3333 or mode == "m" and port == HTTPS and rng.random() < .5) and kind == "tls":
            parts = socks_blob(rng) if rng.random() < .8 else [blob(rng)]
            t = rng.random()
            for x in parts:
                if x:
                    b.pieces(c, x, split_of(rng, len(x)) if len(x) > 1 else [1], batch=rng.random() < .3)
            b("adv %d" % rng.choice([1, 1000]))
        else:
            k = rng.random()
            raw = http_edge(rng) if k < .5 else http_blob(rng, b) if k < .9 else blob(rng)
            if raw:
                b.pieces(c, raw, split_of(rng, len(raw)) if len(raw) > 1 else [1], batch=rng.random() < .3)
        k = rng.random()
        if k < .25:
            b("rst %s" % c)
        elif k < .45:
            b("fin %s" % c)
        elif k < .55 and kind == "tls":
            b("tlsclose %s" % c)
        elif k < .65 and kind == "tls":
            b("raw %s %s" % (c, blob(rng, rng.choice([1, 5, 40])).hex()))
    b("room X0 inf")
    victims = newcomers(b, rng, mode)
    return b.done(lift=["P21"], victims=victims, wild=wild)


def newcomers(b, rng, mode):
    """well-behaved connections at the end"""
    out = []
    b("policy ok")
    if mode == "c":
        # the names of outbound connections are not known after hostile ones
        b("conn Z1 1080 plain", "send Z1 pat:200")
        out.append("Z1")
    else:
        b.meta["kinds"]["Z1"] = "tun"
        b("conn Z1 %d tls" % b.tport, "send Z1 %s" % hx(auth_header()), "send Z1 %s" % hx(GREET), "send Z1 %s" % hx(req_ip("8.8.4.4", b.newport("Z1"))))
        b("send Z1 pat:300")
        out.append("Z1")
    b("conn Z2 %d plain" % HTTP, "send Z2 %s" % hx(b.request("Z2", "/f.html", keep=True)), "send Z2 %s" % hx(b.request("Z2", "/echo", meth="POST", body=50)))
    out.append("Z2")
    return out


def resolver(rng, i):
    """hostile answers from the resolver"""
    b = base("resolver%d" % i, rng, "s")
    wild = []
    for j in range(rng.choice([2, 4])):
        p = Peer(b, rng, "X%d" % j, "tun_resolve")
        wild.append(p.c)
        for _ in range(rng.choice([1, 1, 2, 4])):
            d = dns_blob(rng, p.name)
            b("dnsreply %s %s" % (p.d, d.hex() or "-"))
        if rng.random() < .3:
            b(rng.choice(["fin %s", "rst %s"]) % p.c)
            b("dnsreply %s %s" % (p.d, dns_reply(p.name, [a_rr("1.1.1.1")]).hex()))
    victims = newcomers(b, rng, "s")
    return b.done(lift=["P21"], victims=victims, wild=wild)


def torrent(rng, i):
    """very many small pipelined requests at once"""
    b = base("torrent%d" % i, rng, "s")
    n = 8000 if i == 0 else rng.choice([200, 400])
    tls = rng.random() < .5
    b("conn X0 %d %s" % (HTTPS if tls else HTTP, "tls" if tls else "plain"))
    one = b"GET /%s HTTP/1.1\r\nConnection: Keep-Alive\r\n\r\n" % (rng.choice([b"none", b"empty.css"] if i == 0 else [b"none", b"echo", b"f.html"]))
    b("batch")
    for _ in range(n // 200):
        b("send X0 %s" % hx(one * 200))
    b("end")
    victims = newcomers(b, rng, "s")
    return b.done(lift=["P21"], victims=victims, wild=["X0"])


def P21(rng, tier, rnd=0):
    return ([hostile(rng, i, "csms"[i % 4]) for i in range(64)] + [resolver(rng, i) for i in range(14)] + [torrent(rng, i) for i in range(2)] +
            cuts(rng, rnd, 15, ["P21"]))


def P02(rng, tier, rnd=0):
    return cuts(rng, rnd, 20, [], ("tunnel", "app", "domain"))


# ---------------------------------------------------------------- P22
CONFIG = """SPECIFICATION Spec
CONSTANTS Slots = 8
 Lists = 8
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""


def config_cfg(flaw="none"):
    return CONFIG % (flaw, "INVARIANTS Called Never")


def ports(rng, i, mode, nh, ns):
    pool = rng.sample(range(2000, 60000), 8)
    http, https = pool[:nh], pool[nh:nh + ns]
    kw = {}
    extra = rng.choice(range(1025, 2000))
    if mode == "s" and rng.random() < .5:
        kw["s5_serv_port"] = extra
    if mode == "c" and rng.random() < .5:
        kw["s5_local_port"] = extra
    b = B("ports%d%s" % (i, mode), mode=mode, rng=rng, http=http, https=https, **kw)
    b.file("f.html", 400)
    b.file("index.html", 90)
    if mode == "c":
        b("uptls 1")
    listed = [(p, "http") for p in http] + [(p, "shared" if mode == "m" else "https") for p in https]
    if mode == "s":
        listed.append((b.config["s5_serv_port"], "tun"))
    if mode == "c":
        listed.append((b.config["s5_local_port"], "local"))
    rng.shuffle(listed)
    j = 0
    for p, svc in listed + [rng.choice(listed)]:
        c = "C%d" % j
        j += 1
        right = rng.random() < .7
        if svc == "local":
            b("conn %s %d plain" % (c, p), "send %s pat:77" % c)
            continue
        enc = svc != "http"
        if not right:
            enc = not enc
        as_tun = svc in ("tun",) or (svc == "shared" and rng.random() < .5)
        b("conn %s %d %s" % (c, p, "tls" if enc else "plain"))
        if rng.random() < .15:
            as_tun = not as_tun        # the other service's client
        b.meta["kinds"][c] = "tun" if as_tun and svc in ("tun", "shared") else "web"
        if svc == "tun":
            b.meta["kinds"][c] = "tun"
        if as_tun:
            msgs = [auth_header(), GREET, req_ip("4.4.4.4", b.newport(c))]
            for m in msgs:
                b("send %s %s" % (c, hx(m)))
            if svc in ("http", "https"):
                b.meta.setdefault("wild", []).append(c)
        else:
            raw = b.request(c, rng.choice(["/f.html", "/", "/echo"]), headers=[("Host", "some.host.example")], keep=rng.random() < .5)
            if svc == "tun":
                del b.meta["reqs"][c]
            b("send %s %s" % (c, hx(raw)))
    for _ in range(2):
        q = rng.randrange(1025, 65000)
        if q not in [p for p, _ in listed]:
            b("conn N%d %d plain" % (q, q))
    return b.done(lift=["P22"], wild=b.meta.get("wild", []))


def P22(rng, tier, rnd=0):
    """every configuration of the model, with other port numbers and clients in each round"""
    return [ports(rng, i, c[0], int(c[1]), int(c[2])) for i, c in enumerate(graph.starts("ConfigMC", CONFIG % ("none", "")))]


# ---------------------------------------------------------------- P23
def subject(b, rng, mode, kind, s="S", d="D1", cut=None):
    """the connection during which something goes wrong (cut: a line for just after it is made)"""
    tls = rng.random() < .5
    more = [cut] if cut else []
    web = "conn %s %d %s" % (s, HTTPS if tls else HTTP, "tls" if tls else "plain")

    def say(*xs):
        for x in xs:
            b("send %s %s" % (s, hx(x) if isinstance(x, bytes) else "pat:%d" % x))
    if kind == "tunnel":
        b("conn %s %d tls" % (s, b.tport), *more)
        say(auth_header(), GREET, req_ip("3.3.3.3", b.newport(s)), 9000)
    elif kind == "domain":
        b("conn %s %d tls" % (s, b.tport), *more)
        say(auth_header(), GREET, req_dom("s.example", b.newport(s)))
        b("dnsreply %s %s" % (d, dns_reply("s.example", [a_rr("3.3.3.4", 60)]).hex()))
        say(5000)
    elif kind == "file":
        b(web, *more)
        say(b.request(s, "/big.bin", keep=True), b.request(s, "/f.html", keep=False))
    elif kind == "post":
        b(web, *more)
        say(b.request(s, "/echo", meth="POST", body=9000, keep=True), b.request(s, "/echo", keep=False))
    elif kind == "app":
        b("conn %s 1080 plain" % s, *more)
        say(9000, 9000)


def shortage(rng, i, kind, k, n):
    mode = "c" if kind == "app" else rng.choice("ssm")
    b = base("shortage%d%s" % (i, kind), rng, mode)
    b("seed %d" % rng.randrange(1 << 30))
    # everything has been used once before
    warm(b)
    seed = rng.randrange(1 << 30)
    subject(b, random.Random(seed), mode, kind, "B")
    b.nup += kind in ("tunnel", "domain", "app")
    b("fin B", "adv 30000", "adv 70000", "mark x")
    vs = []
    for j in range(rng.choice([1, 2])):
        c = "V%d" % j
        vs.append((c, b.tunnel(c, ip="7.7.7.%d" % j) if mode != "c" else b.app(c)))
    if mode == "m":
        for c in "BS":
            b.meta["kinds"][c] = "tun" if kind in ("tunnel", "domain") else "web"
    b("conn W %d plain" % HTTP, "send W %s" % hx(b.request("W", "/f.html", keep=True)))
    sock = n == "sock"
    b("sockfail 1" if sock else n if isinstance(n, str) else "failalloc %d %d" % (k, n))
    subject(b, random.Random(seed), mode, kind, "S", "D2")
    b("sockfail 0", "failalloc 0")
    for c, u in vs:
        b("send %s pat:%d" % (c, rng.choice([10, 9000])), "send %s pat:%d" % (u, rng.choice([10, 9000])))
    b("send W %s" % hx(b.request("W", "/echo", keep=False)))
    b(rng.choice(["fin S", "rst S", "adv 11000", "adv 1"]))
    # service resumes
    victims = newcomers(b, rng, mode) + [c for c, u in vs] + ["W"]
    b("adv 30000", "adv 70000")
    return b.done(lift=["P23"], victims=victims, subjects=["S"])


def severed(rng, i, kind, k, far, lift):
    """a connection that is reset between two calls on it, or the one made for it"""
    mode = "c" if kind == "app" else rng.choice("ssm")
    b = base("severed%d%s%s" % (i, kind, "-far" if far else ""), rng, mode)
    b("seed %d" % rng.randrange(1 << 30))
    for x, n in (("rcvcap", [1, 7, 100, 2000]), ("sndcap", [1, 7, 100, 2000])):
        if rng.random() < .15:
            b("%s %d" % (x, rng.choice(n)))
    warm(b)
    seed = rng.randrange(1 << 30)
    subject(b, random.Random(seed), mode, kind, "B")
    b.nup += kind in ("tunnel", "domain", "app")
    b("fin B", "adv 30000", "adv 70000", "mark x")
    vs = []
    for j in range(rng.choice([1, 2])):
        c = "V%d" % j
        vs.append((c, b.tunnel(c, ip="7.7.7.%d" % j) if mode != "c" else b.app(c)))
    if mode == "m":
        for c in "BS":
            b.meta["kinds"][c] = "tun" if kind in ("tunnel", "domain") else "web"
    subject(b, random.Random(seed), mode, kind, "S", "D2", "cutup %d" % k if far else "cutat S %d" % k)
    b("cutup 0")
    b.nup += kind in ("tunnel", "domain", "app")
    for c, u in vs:
        b("send %s pat:%d" % (c, rng.choice([10, 9000])), "send %s pat:%d" % (u, rng.choice([10, 9000])))
    b("adv %d" % rng.choice([1, 100, 3000]))
    victims = newcomers(b, rng, mode) + [c for c, u in vs]
    b("adv 30000", "adv 70000")
    return b.done(lift=lift, victims=victims)


def cuts(rng, rnd, num, lift, kinds=("tunnel", "domain", "file", "post", "app")):
    out = []
    for i in range(num):
        kind = kinds[(i + rnd) % len(kinds)]
        far = kind in ("tunnel", "domain", "app") and rng.random() < .5
        out.append(severed(rng, i, kind, rng.choice([rng.randrange(1, 12), rng.randrange(1, 60)]), far, lift))
    return out


def P23(rng, tier, rnd=0):
    """the failing allocation moves through the whole session over the rounds"""
    out = []
    i = 0
    for kind in ("tunnel", "domain", "file", "post", "app"):
        for k in range(1, 25):
            if (k + rnd) % 2 == 0 or tier != "quick":
                out.append(shortage(rng, i, kind, k, rng.choice([1, 1, 1, 2, 5, 1000])))
                i += 1
        if kind in ("tunnel", "domain", "app"):
            out.append(shortage(rng, i, kind, 1, "sock"))
            i += 1
    out.append(shortage(rng, i, "domain", 1, "dgfail unreach 1"))
    return out
