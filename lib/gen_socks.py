"""Scenarios for tunnel set-up in the server role: keys, requests, replies, names."""
from scen import *
import graph
from gen_tunnel import knobs, SIZES

PRINT = bytes(range(33, 127))


def segs(rng, n):
    """how n bytes are cut"""
    k = rng.random()
    if k < .25:
        return [n]
    if k < .45:
        return [1] * n
    if k < .6:
        c = rng.randrange(1, n) if n > 1 else 1
        return [c, n - c] if n > 1 else [1]
    return rand_cuts(rng, n, rng.randrange(1, 6))


def light_knobs(b, rng):
    if rng.random() < .2:
        b("rcvcap %d" % rng.choice([1, 3, 35, 36, 37]))
    if rng.random() < .15:
        b("sndcap %d" % rng.choice([1, 5, 50]))
    b("order %s" % rng.choice(["fifo", "lifo", "rand"]))
    if rng.random() < .2:
        b("tls12 1")
    b("seed %d" % rng.randrange(1 << 30))


# ------------------------------------------------------------------ P04
def word(rng, alpha, lo, hi):
    return bytes(rng.choice(alpha) for _ in range(rng.randrange(lo, hi + 1)))


def key_set(rng, k):
    """key files: random, nested, overlapping, sharing prefixes, with unusual bytes"""
    style = k % 7
    n = rng.choice([1, 1, 2, 3, 5, 8])
    if style == 0:
        return [word(rng, b"ab", 1, 6) for _ in range(n)]
    if style == 1:
        return [word(rng, b"abc", 2, 16) for _ in range(n)]
    if style == 2:                                     # one inside or beside another
        w = word(rng, b"abcd", 4, 16)
        out = [w]
        for _ in range(n):
            i = rng.randrange(len(w))
            j = rng.randrange(i + 1, len(w) + 1)
            x = w[i:j]
            if rng.random() < .6:
                x += word(rng, b"abcd", 1, 3)
            if rng.random() < .4:
                x = word(rng, b"abcd", 1, 2) + x
            out.append(x[:16])
        rng.shuffle(out)
        return out
    if style == 3:                                     # common prefixes
        w = word(rng, b"xy", 1, 8)
        return [(w + word(rng, b"xyz", 1, 8))[:16] for _ in range(n)]
    if style == 4:
        return [word(rng, PRINT, 1, 16) for _ in range(n)]
    if style == 5:                                     # text beyond ASCII
        return ["".join(rng.choice("éß€中Жaz") for _ in range(rng.randrange(1, 5))).encode()[:16] or b"k" for _ in range(n)]
    return [word(rng, b"a", 1, 12) for _ in range(n)]


def utf8(b):
    while True:
        try:
            b.decode("utf-8")
            return b
        except UnicodeDecodeError:
            b = b[:-1]


def attempt(rng, keys):
    """the 32 bytes after the magic number"""
    k = rng.choice(keys)
    s = rng.random()
    alpha = bytes(sorted(set(b"".join(keys)))) or b"a"
    if s < .2:
        t = k
    elif s < .3:
        t = k[:-1] if rng.random() < .5 else k[1:]
    elif s < .4:
        i = rng.randrange(len(k))
        t = k[:i] + bytes([rng.choice(alpha + b"~\x80\xff")]) + k[i + 1:]
    elif s < .5:
        t = word(rng, alpha, 0, 8) + k + word(rng, alpha, 0, 8)
    elif s < .56:
        t = word(rng, alpha, 0, 4) + b"\0" + k
    elif s < .62:
        t = b"\0" * 16 + k
    elif s < .7:
        o = rng.choice(keys)
        t = k[:rng.randrange(len(k) + 1)] + o[rng.randrange(len(o) + 1):] + word(rng, alpha, 0, 3)
    elif s < .78:
        t = word(rng, alpha, 16, 32)
    elif s < .82:
        t = k[:len(k) // 2].ljust(16, b"\0") + k[len(k) // 2:]
    elif s < .86:
        t = (word(rng, alpha, 16, 16)[:17 - len(k)] + k).ljust(16, b"\0") if len(k) < 17 else k
    elif s < .9:
        t = bytes(rng.randrange(256) for _ in range(32))
    elif s < .94:
        t = b""
    else:
        t = word(rng, alpha, 1, 32)
    return t[:32].ljust(32, b"\0")


def auth(rng, i, mode="s"):
    keys = [utf8(k) or b"k" for k in key_set(rng, i)]
    port = 3333 if mode == "s" else 8443
    kw = {} if mode == "s" else {"https": [8443]}
    listed = [k.decode("utf-8") for k in keys]
    if rng.random() < .15:
        # entries that are no text are no keys
        raw = json.dumps(listed[:1] + [rng.choice([7, None, True, {"a": 1}])] + listed[1:], ensure_ascii=False)
        b = B("auth%d" % i, mode=mode, rng=rng, keys=raw, **kw)
    else:
        b = B("auth%d" % i, mode=mode, rng=rng, keys=listed, **kw)
    b.meta["keys"] = [k.decode("utf-8") for k in keys]
    light_knobs(b, rng)
    n = rng.randrange(3, 10)
    for j in range(n):
        c = "C%d" % j
        b("conn %s %d tls" % (c, port))
        magic = b"\xa0\x01\xbe\xef"
        if rng.random() < .1 and mode == "s":
            m = bytearray(magic)
            m[rng.randrange(4)] ^= 1 << rng.randrange(8)
            magic = bytes(m)
        h = magic + attempt(rng, keys)
        cut = rng.random() < .05
        if cut:
            h = h[:rng.randrange(1, 36)]
        t = b.newport(c)
        if rng.random() < .2 and not cut:
            h += GREET
            b.pieces(c, h, segs(rng, len(h)), batch=rng.random() < .3)
        else:
            b.pieces(c, h, segs(rng, len(h)), batch=rng.random() < .3)
            if not cut:
                b("send %s %s" % (c, hx(GREET)))
        if not cut and rng.random() < .5:
            b("send %s %s" % (c, hx(req_ip("1.2.3.4", t) if rng.random() < .5 else req_dom("a.example", t))))
        if rng.random() < .3:
            b("%s %s" % (rng.choice(["fin", "rst"]), c))
        elif rng.random() < .1:
            b("adv %d" % rng.choice([100, 5000, 11000]))
    return b.done()


import json


def P04(rng, tier, rnd=0):
    return [auth(rng, i + rnd, "m" if i % 6 == 5 else "s") for i in range(70)]


# ------------------------------------------------------------------ P05
def valid_name(rng, n=None):
    n = n or rng.choice([1, 2, 3, 10, 11, 63, 64, 65, 100, 127, 128, 200, 252, 253, rng.randrange(1, 254)])
    out = b""
    while len(out) < n:
        room = n - len(out) - (1 if out else 0)
        if room < 1:
            out = out[:-1] + b"xy" if out else b"x" * n
            return valid_name(rng, n)
        k = min(room, rng.choice([1, 3, 7, 20, 62, 63]))
        if room - k == 1:
            k = k - 1 if k > 1 else k
            if k + 1 == room:
                return valid_name(rng, n)
        lab = bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-ABC") for _ in range(k))
        out = out + (b"." if out else b"") + lab
    return out


def greeting(rng):
    n = rng.choice([1, 1, 1, 2, 3, 5, 100, 254, 255])
    v = 5 if rng.random() < .9 else rng.randrange(256)
    return bytes([v, n]) + bytes(rng.choice([0, 0, 1, 2, 255, rng.randrange(256)]) for _ in range(n))


def ip(rng):
    return ".".join(str(x) for x in rng.choice([(1, 2, 3, 4), (0, 0, 0, 0), (127, 0, 0, 1), (255, 255, 255, 255), (0x0a, 0x0d, 0, 0x80),
                                                tuple(rng.randrange(256) for _ in range(4))]))


def request(rng, b, c):
    """-> (bytes, names a domain?, acceptable?, name)"""
    p = rng.choice([1, 53, 80, 255, 256, 443, 3333, 8080, 32767, 32768, 65535, rng.randrange(1, 65536)])
    while p in b.meta["ports"].values():
        p = rng.randrange(1, 65536)
    s = rng.random()
    if s < .35:
        b.meta["ports"][c] = p
        return req_ip(ip(rng), p, rsv=rng.choice([0, 0, 7])), False, True, b""
    if s < .7:
        b.meta["ports"][c] = p
        nm = valid_name(rng)
        return req_dom(nm, p), True, True, nm
    # unacceptable in some way
    k = rng.random()
    if k < .3:
        return req_ip("1.2.3.4", p, cmd=rng.choice([0, 2, 3, 9, 255])), False, False, b""
    if k < .5:
        return req_ip("1.2.3.4", p, ver=rng.choice([0, 1, 4, 6, 255])), False, False, b""
    if k < .6:
        return bytes([5, 1, 0, 3, 0]) + p.to_bytes(2, "big"), False, False, b""
    if k < .75:
        return bytes([5, rng.choice([2, 3]), 0, 3, 5]) + b"a.com" + p.to_bytes(2, "big"), False, False, b""
    if k < .85:
        return bytes([5, 1, 0, 4]) + bytes(16) + p.to_bytes(2, "big"), False, False, b""
    return bytes([5, 1, 0, rng.choice([0, 2, 5, 6, 127, 255])]) + bytes(rng.randrange(4, 20)), False, False, b""


def dialogue(rng, i, mode="s"):
    b = B("request%d" % i, mode=mode, rng=rng, **({"https": [8443]} if mode == "m" else {}))
    light_knobs(b, rng)
    port = 3333 if mode == "s" else 8443
    nd = 0
    conns = ["C%d" % j for j in range(rng.randrange(1, 6))]
    for c in conns:
        b("conn %s %d tls" % (c, port))
        h, g = auth_header(), greeting(rng)
        if rng.random() < .15:
            g = bytes([5, 0])
        if rng.random() < .3:
            b.pieces(c, h + g, segs(rng, len(h + g)), batch=rng.random() < .3)
        else:
            b.pieces(c, h, segs(rng, 36))
            b.pieces(c, g, segs(rng, len(g)) if len(g) < 20 else rand_cuts(rng, len(g), 3), batch=rng.random() < .3)
        if g[1] == 0:
            continue
        if rng.random() < .1:
            b("adv %d" % rng.choice([100, 9000]))
        b("policy %s" % rng.choice(["auto", "auto", "auto", "auto", "auto", "refuse", "unreach"]))
        r, dom, ok, nm = request(rng, b, c)
        cut = segs(rng, len(r)) if len(r) < 40 else rand_cuts(rng, len(r), rng.choice([0, 1, 5]))
        if ok and rng.random() < .1:
            # what follows at once is not part of the request
            more = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 10, 200])))
            r, cut = r + more, cut[:-1] + [cut[-1] + len(more)]
        b.pieces(c, r, cut, batch=rng.random() < .3)
        if ok and dom:
            nd += 1
            b("dnsreply D%d %s" % (nd, dns_reply(nm, [a_rr(ip(rng), rng.choice([0, 60]))]).hex()))
        if ok and rng.random() < .4:
            b.nup += 1
            b("send %s pat:%d" % (c, rng.choice([1, 10, 5000])))
        if rng.random() < .2:
            b("%s %s" % (rng.choice(["fin", "rst", "tlsclose"]), c))
    return b.done()


def P05(rng, tier, rnd=0):
    return [dialogue(rng, i, "m" if i % 6 == 5 else "s") for i in range(80)]


# ------------------------------------------------------------------ P06
def outcomes(rng, i):
    b = B("outcome%d" % i, rng=rng)
    light_knobs(b, rng)
    n = rng.randrange(1, 5)
    nd = nu = 0
    names = {}
    acts = []           # pending actions, played in random order
    conns = []
    for j in range(n):
        c = "C%d" % j
        conns.append(c)
        p = b.newport(c)
        pol = rng.choice(["auto", "ok", "refuse", "unreach", "inprog", "inprog", "inprog"])
        b("policy %s" % pol)
        b("conn %s 3333 tls%s" % (c, rng.choice(["", "", " room=inf"])))
        b("send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)))
        if rng.random() < .25:
            b("room %s %d" % (c, rng.choice([0, 1, 10, 31])))
            if rng.random() < .6:
                acts.append(("cmd", "room %s inf" % c))
        if rng.random() < .6:
            b("send %s %s" % (c, hx(req_ip("9.8.7.%d" % j, p))))
            nu += 1
            if pol == "inprog":
                acts.append(("cmd", "dialres U%d %s" % (nu, rng.choice(["ok", "ok", "refused", "unreach", "timeout"]))))
            if pol in ("inprog", "ok", "auto") and rng.random() < .4:
                acts.append(("cmd", "send U%d pat:%d" % (nu, rng.choice([1, 100, 9000]))))
        else:
            nm = "h%d.example" % j
            b("send %s %s" % (c, hx(req_dom(nm, p))))
            nd += 1
            k = rng.random()
            if k < .6:
                b("dnsreply D%d %s" % (nd, dns_reply(nm, [a_rr("9.8.7.%d" % j)]).hex()))
                nu += 1
                if pol == "inprog":
                    acts.append(("cmd", "dialres U%d %s" % (nu, rng.choice(["ok", "ok", "refused", "unreach", "timeout"]))))
            elif k < .8:
                b("dnsreply D%d %s" % (nd, dns_reply(nm, []).hex()))
        k = rng.random()
        if k < .12:
            acts.append(("cmd", "fin %s" % c))
        elif k < .2:
            acts.append(("cmd", "rst %s" % c))
        elif k < .25:
            acts.append(("cmd", "tlsclose %s" % c))
        elif k < .4:
            acts.append(("cmd", "send %s pat:%d" % (c, rng.choice([1, 100, 5000]))))
    rng.shuffle(acts)
    inb = False
    for _, a in acts:
        if not inb and rng.random() < .3:
            b("batch")
            inb = True
        b(a)
        if inb and rng.random() < .5:
            b("end")
            inb = False
        if not inb and rng.random() < .25:
            b("adv %d" % rng.choice([1, 500, 4000, 5001, 9900]))
    if inb:
        b("end")
    return b.done()


def P06(rng, tier, rnd=0):
    return [outcomes(rng, i) for i in range(130)]


# ------------------------------------------------------------------ P07
def compressed(rng, name):
    """some encoding of an owner name inside an answer"""
    k = rng.random()
    if k < .5:
        return b"\xc0\x0c"
    if k < .75:
        return qname(name)
    labs = (name if isinstance(name, bytes) else name.encode()).split(b".")
    j = rng.randrange(len(labs))
    off = 12 + sum(len(x) + 1 for x in labs[:j])
    if off < 0x3fff:
        return b"".join(bytes([len(x)]) + x for x in labs[:j]) + (0xc000 | off).to_bytes(2, "big")
    return b"\xc0\x0c"


def other_rr(rng, name):
    t = rng.choice([2, 5, 5, 6, 12, 15, 16, 28, 41, 46, 257, 65535])
    n = rng.choice([0, 1, 4, 4, 6, 16, 20, 100])
    d = bytes(rng.choice([0, 1, 4, 0xc0, 12, 192, rng.randrange(256)]) for _ in range(n))
    if rng.random() < .3:
        d = a_rr("66.66.66.66")                        # looks like an address record
    return rr(compressed(rng, name), t, rng.randrange(1 << 32), d)


def odd_a(rng, name):
    return rr(compressed(rng, name), 1, 60, bytes(rng.choice([0, 1, 3, 5, 8, 16])))


def reply(rng, name, k):
    """a reply of kind k"""
    good = lambda: rr(compressed(rng, name), 1, rng.choice([0, 1, 60, 300, 86400, 0x7fffffff, 0xffffffff]), bytes(rng.randrange(256) for _ in range(4)))
    ans = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        ans.append(other_rr(rng, name))
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ans.append(good())
    if k == "plain":
        return dns_reply(name, [good()])
    if k == "mix":
        rng.shuffle(ans)
        return dns_reply(name, ans, auth=[other_rr(rng, name) for _ in range(rng.randrange(3))],
                         add=[good() for _ in range(rng.randrange(3))])
    if k == "none":
        return dns_reply(name, [other_rr(rng, name) for _ in range(rng.randrange(4))],
                         auth=[good() for _ in range(rng.randrange(2))], add=[good() for _ in range(rng.randrange(1, 3))])
    if k == "odda":
        a = [odd_a(rng, name) for _ in range(rng.randrange(1, 3))] + ([good()] if rng.random() < .5 else [])
        return dns_reply(name, a)
    if k == "counts":
        a = rng.choice([0, 1, 2, 5, 255, 256, 65535])
        return dns_reply(name, ans, counts=(a, rng.choice([0, 9]), rng.choice([0, 9])))
    if k == "cut":
        r = dns_reply(name, ans, add=[good()])
        return r[:rng.randrange(0, len(r))]
    if k == "cutq":
        r = dns_reply(name, ans)
        return r[:rng.choice([0, 1, 2, 3, 11, 12, 13, 12 + len(name), 12 + len(name) + 2, 12 + len(name) + 5, 12 + len(name) + 6, 12 + len(name) + 7])]
    if k == "otherq":
        o = bytearray(name)
        o[rng.randrange(len(o))] = ord("_")
        return dns_reply(bytes(o), [good()])
    if k == "qd":
        return dns_reply(name, [good()], qd=rng.choice([0, 2, 3, 256]))
    if k == "case":
        return dns_reply(name.swapcase(), [good()])
    if k == "qid":
        return dns_reply(name, [good()], qid=rng.choice([b"\0\0", b"\xef\xbe", b"\xbe\xee"]))
    if k == "ptr":
        # names that point at themselves or past the end
        p = rng.choice([b"\xc0\x0c", b"\xff\xff", (0xc000 | (12 + len(name) + 6)).to_bytes(2, "big"), b"\xc0", b"\x40a", b"\x3f" + b"a" * 5])
        return dns_reply(name, [rr(p, 1, 60, b"\7\7\7\7")] + ans[:1])
    if k == "flip":
        r = bytearray(dns_reply(name, ans, add=[good()]))
        for _ in range(rng.randrange(1, 4)):
            r[rng.randrange(12, len(r))] = rng.choice([0, 1, 4, 192, 255, rng.randrange(256)])
        return bytes(r)
    if k == "long":
        return dns_reply(name, [other_rr(rng, name) for _ in range(rng.randrange(5, 30))] + [good()])
    r = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 80)))
    return QID + r


KINDS = ["plain", "mix", "mix", "none", "odda", "counts", "cut", "cut", "cutq", "otherq", "qd", "case", "qid", "ptr", "flip", "long", "junk"]


def resolving(rng, i):
    b = B("resolve%d" % i, rng=rng, **({"s5_serv_gw": rng.choice(["9.9.9.9", "192.168.1.1"])} if rng.random() < .3 else {}))
    gw = b.config.get("s5_serv_gw") or "8.8.8.8"
    light_knobs(b, rng)
    acts, nd = [], 0
    for j in range(rng.randrange(1, 6)):
        c = "C%d" % j
        p = b.newport(c)
        nm = valid_name(rng)
        if rng.random() < .1:
            nm = b"1.2.3.4"
        b("conn %s 3333 tls" % c, "send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)))
        if rng.random() < .15:
            b("dgfail again 1")
        b("send %s %s" % (c, hx(req_dom(nm, p))))
        nd += 1
        k = rng.choice(KINDS)
        r = reply(rng, nm, k)[:1400]
        if rng.random() < .12:
            acts.append("dnsreply D%d %s %s %d" % (nd, reply(rng, nm, "plain").hex(), rng.choice(["6.6.6.6", gw]), rng.choice([53, 5353, 54])))
        if rng.random() < .9:
            acts.append("dnsreply D%d %s" % (nd, r.hex() or "-"))
        if rng.random() < .25:
            acts.append("dnsreply D%d %s" % (nd, reply(rng, nm, "plain").hex()))
        if rng.random() < .08:
            acts.append("%s %s" % (rng.choice(["fin", "rst", "tlsclose"]), c))
        if rng.random() < .5 or j == 0:
            if rng.random() < .3:
                rng.shuffle(acts)
            for a in acts:
                if rng.random() < .15:
                    b("adv %d" % rng.choice([1, 1000, 4999, 5000, 6000]))
                b(a)
            acts = []
    for a in acts:
        b(a)
    return b.done()


REPLIES = """SPECIFICATION Spec
CONSTANTS MaxRecs = %d
 MaxCount = %d
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""


def reply_cfg(recs, count, checked=False, flaw="none"):
    return REPLIES % (recs, count, flaw, "INVARIANTS Right Finds" if checked else "")


def reply_model(rng, num):
    """replies of the model: records of each kind with each form of owner, any number announced, cut anywhere"""
    ps = [p[-1] for p in graph.behaviours("DnsMC", reply_cfg(3, 4), rng, num, 6)]
    out = []
    while ps:
        b = B("reply%d" % len(out), rng=rng)
        light_knobs(b, rng)
        for j, o in enumerate(ps[:6]):
            c = "C%d" % j
            port = b.newport(c)
            nm = b"h%d.%s" % (j, rng.choice([b"example", b"a.b.c", b"x"]))
            b("conn %s 3333 tls" % c, "send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)),
              "send %s %s" % (c, hx(req_dom(nm, port))))
            v = [int(x) for x in o[1:]]
            recs = []
            for k, (ow, kind) in enumerate([(v[0], v[1]), (v[2], v[3]), (v[4], v[5])]):
                if ow:
                    owner = [b"\xc0\x0c", qname(nm), b"\x01b\xc0\x0c", b"\0"][ow - 1]
                    t, d = [(1, bytes([1, 2 + j, rng.choice([3, 200]), k + 1])), (1, b"\xc0\x0c\0"), (5, b"\xc0\x0c"), (28, b"\0\1\0\4")][kind - 1]
                    recs.append(rr(owner, t, 60, d))
            r = dns_reply(nm, recs, counts=(v[6], 0, 0))
            if v[7] >= 0:
                r = r[:12 + len(nm) + 6 + v[7]]
            b("dnsreply D%d %s" % (j + 1, r.hex()))
        ps = ps[6:]
        out.append(b.done())
    return out


def P07(rng, tier, rnd=0):
    return [resolving(rng, i) for i in range(100)] + reply_model(rng, 120)


# ------------------------------------------------------------------ P08
def caching(rng, i):
    """lookups of several names, answers with times to live, passages of time"""
    b = B("cache%d" % i, rng=rng)
    light_knobs(b, rng)
    names = [b"a.example", b"b.example", b"a.exampl", b"a.example.org", b"ab.example", b"xa.example", valid_name(rng), b"b.exampld"]
    rng.shuffle(names)
    names = names[:rng.randrange(1, 6)]
    if rng.random() < .2:
        names.append(names[0].upper())
    now, nd, live = 0, 0, {}
    ttls = [0, 1, 2, 10, 30, 31, 60, 119, 300, 3600, 10799, 10800, 10801, 65535, 65536, 86400, 0xffffffff]
    n = rng.randrange(4, 16)
    for j in range(n):
        c = "C%d" % j
        p = b.newport(c)
        nm = rng.choice(names)
        b("conn %s 3333 tls" % c, "send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)),
          "send %s %s" % (c, hx(req_dom(nm, p))))
        if live.get(nm, 0) <= now:
            nd += 1
            ttl = rng.choice(ttls)
            addrs = [a_rr("%d.%d.%d.%d" % (rng.choice([5, 128, 200]), j + rng.choice([0, 128]), rng.randrange(256), k + rng.choice([0, 128, 254])), ttl) for k in range(rng.choice([1, 1, 1, 2]))]
            d = rng.choice([0, 0, 0, 10, 3000])
            if d:
                b("adv %d" % d)
                now += d
            if rng.random() < .9:
                b("dnsreply D%d %s" % (nd, dns_reply(nm, addrs).hex()))
                if ttl:
                    live[nm] = now + min(ttl, 10800) * 1000
            else:
                b("adv 6000")
                now += 6000
        b("fin %s" % c)
        k = rng.random()
        if k < .5:
            # to just before or just after something expires
            if live and rng.random() < .7:
                t = rng.choice(sorted(live.values()))
                d = t - now + rng.choice([-1000, -500, -1, 1, 500, 1000, 29000, 31000])
            else:
                d = rng.choice([100, 1000, 10000, 30000, 61000, 3600000])
            if d > 0:
                b("adv %d" % d)
                now += d
    return b.done()


def concurrent(rng, i):
    """the same name asked for by several sessions at once"""
    b = B("twins%d" % i, rng=rng)
    light_knobs(b, rng)
    nm = rng.choice([b"twin.example", valid_name(rng)])
    n = rng.randrange(2, 5)
    for j in range(n):
        c = "C%d" % j
        p = b.newport(c)
        b("conn %s 3333 tls" % c, "send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)),
          "send %s %s" % (c, hx(req_dom(nm, p))))
    order = list(range(1, n + 1))
    rng.shuffle(order)
    for d in order:
        b("dnsreply D%d %s" % (d, dns_reply(nm, [a_rr("%d.5.5.%d" % (rng.choice([5, 223]), d), rng.choice([1, 5, 60]))]).hex()))
        if rng.random() < .3:
            b("adv %d" % rng.choice([100, 1500]))
    for j in range(n, n + 3):
        c = "C%d" % j
        p = b.newport(c)
        b("conn %s 3333 tls" % c, "send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)),
          "send %s %s" % (c, hx(req_dom(nm, p))))
        b("adv %d" % rng.choice([100, 3000]))
    return b.done()


CACHE = """SPECIFICATION Spec
CONSTANTS Names = {%s}
 Buckets = %d
 Addrs = {%s}
 MaxTtl = 3
 Cap = 2
 MaxPend = 2
%s
CHECK_DEADLOCK FALSE
"""


def cache_cfg(names, buckets, addrs, checked=False):
    return CACHE % (", ".join(map(str, range(1, names + 1))), buckets, ", ".join(map(str, range(1, addrs + 1))),
                    "INVARIANTS Agrees Once Capped\nPROPERTIES Uses" if checked else "")


def cache_model(rng, rnd, num):
    """behaviours of the model of the cache"""
    if rnd % 2:
        ps = graph.behaviours("CacheMC", cache_cfg(3, 2, 2), rng, num, 40)
    else:
        ps, _ = graph.tours("CacheMC", cache_cfg(2, 1, 1), rng, 40, num)
    out = []
    for i, p in enumerate(ps):
        b = B("cachemodel%d" % i, rng=rng)
        light_knobs(b, rng)
        stem = rng.choice([b"n%d.example", b"%d.n", b"same%d", b"n.e%d", b"host-%d.sub.example.org"])
        names = [stem % k for k in rng.sample(range(1, 60), 3)]
        if rng.random() < .3:
            names = [b"x.ab", b"x.a", b"x.abc"]
        # how long a step of the model is, and where in the last step an answer expires
        unit = 6000 if any(o[0] == "answer" and o[3] == "3" for o in p) else rng.choice([10, 31, 61, 6000])
        nd, nc, pend = 0, 0, []
        live = {}
        for o in p[1:]:
            if o[0] == "ask":
                nm = names[int(o[1]) - 1]
                c = "C%d" % nc
                nc += 1
                port = b.newport(c)
                b("conn %s 3333 tls" % c, "send %s %s" % (c, hx(auth_header())), "send %s %s" % (c, hx(GREET)),
                  "send %s %s" % (c, hx(req_dom(nm, port))))
                if live.get(nm, 0) > 0:
                    b("fin %s" % c)
                else:
                    nd += 1
                    pend.append((nd, nm, c))
            elif o[0] == "answer":
                d, nm, c = pend.pop(int(o[1]) - 1)
                t = int(o[3])
                late = rng.choice([1, unit // 2, unit - 6])
                ttl = 0 if t == 0 else t * unit - late if t < 3 else rng.choice([18000, 65536, 2147484, 4294968, 0x7fffffff, 0xffffffff])
                b("dnsreply D%d %s" % (d, dns_reply(nm, [a_rr("%d.%d.0.%s" % (rng.choice([9, 129]), nc, o[2]), ttl)]).hex()), "fin %s" % c)
                if t and not live.get(nm, 0):
                    live[nm] = min(t, 2)
            elif o[0] == "tick":
                k = rng.randrange(1, unit * 1000)
                b(*(["adv %d" % (unit * 1000)] if rng.random() < .7 else ["adv %d" % k, "adv %d" % (unit * 1000 - k)]))
                live = {n: x - 1 for n, x in live.items() if x > 1}
                pend = []
        out.append(b.done())
    return out


def P08(rng, tier, rnd=0):
    return [caching(rng, i) for i in range(60)] + [concurrent(rng, i) for i in range(10)] + cache_model(rng, rnd, 25)
