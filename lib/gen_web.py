"""Scenarios for the web server: splitting, framing, read schedules, targets, shared port."""
import posixpath
from scen import *
import graph
from gen_tunnel import knobs, ROOMS, relay_ops

HTTP, HTTPS = 8080, 8443
FSIZES = [0, 1, 2, 100, 1000, 4095, 4096, 4097, 8192, 16000, 16319, 16320, 16343, 16344, 16345, 16384, 16385, 20000, 32768, 40000, 70000]
BODIES = [1, 2, 10, 100, 1000, 4000, 4095, 4096, 4097, 5000, 8000, 12000, 15999, 16000]
HNAMES = ["Host", "User-Agent", "Accept", "X-A", "X-Long-Header-Name", "Cookie", "Referer", "Accept-Language"]


def site(b, rng, n=None):
    """a document root; returns targets that name something in it or nothing"""
    names = ["index.html", "a.html", "b.js", "d/c.txt", "d/index.html", "d/e/x.bin", "noext", "many.dots.css", "d.d/y.m3u8", "sp~1_-.json",
             "echo1", "ech", "echo.html", "echoes/echo", "d/echo"]
    rng.shuffle(names)
    names = names[:n or rng.randrange(2, 7)]
    for k in names:
        b.file(k, rng.choice(FSIZES))
    ts = ["/" + k for k in names]
    if "index.html" in names:
        ts.append("/")
    return ts


def extras(b, rng):
    """targets that must not yield a file's content"""
    b.files["dir"] = "DIR"
    b.file("locked.txt", rng.choice([1, 500, 5000]), kind="locked")
    b("chmod web/locked.txt 000")
    return ["/dir", "/dir/", "/locked.txt", "/missing", "/missing/", "/missing.html", "/a.html/x", "/locked.txt/", "/" + "n" * rng.choice([200, 255, 256, 300, 1500, 2100, 3000]), "/d/./../missing"[:4]]


def headers(rng, room):
    """header fields other than those that matter"""
    hs = []
    for _ in range(rng.choice([0, 0, 1, 2, 5, 12, 14, 15, 16, 40])):
        v = "".join(rng.choice("abcXYZ019-_=/;.: ,") for _ in range(rng.choice([0, 1, 5, 20, 60]))).strip()
        hs.append((rng.choice(HNAMES), v))
        room -= 100
        if room < 100:
            break
    return hs


def rand_request(b, rng, c, ts, keep, rid=None, bad=()):
    k = rng.random()
    room = 3500
    kw = dict(keep=keep, rid=rid, headers=headers(rng, room))
    if k < .12:
        return b.request(c, "/echo", **kw)
    if k < .4:
        return b.request(c, "/echo", meth="POST", body=rng.choice(BODIES), **kw)
    t = rng.choice(bad) if bad and rng.random() < .35 else rng.choice(ts)
    if rng.random() < .15:
        t = rng.choice(["http://h", "https://host.example:8080", "http://1.2.3.4", "http://h:1"]) + t
    if rng.random() < .1:
        kw["body"] = rng.choice(BODIES[:8])
    if rng.random() < .2:
        kw["ver"] = "HTTP/1.0"
    while kw["headers"] and len(t) + sum(len(h) + len(v) + 4 for h, v in kw["headers"]) > 3900:
        kw["headers"].pop()
    return b.request(c, t, **kw)


def pad_head(b, rng, c, t, total, keep=False, rid=None, **kw):
    """a request whose head is exactly `total' bytes long, if possible"""
    base = len(b.request(c, t, keep=keep, rid=rid, **kw)) - kw.get("body", 0)
    rs = b.meta["reqs"][c]
    rs.pop()
    if not rs:
        del b.meta["reqs"][c]
    need = total - base - len("X-P: \r\n")
    if need < 0:
        return b.request(c, t, keep=keep, rid=rid, **kw)
    return b.request(c, t, keep=keep, rid=rid, headers=[("X-P", "p" * need)], **kw)


def split_of(rng, n, style=None):
    k = rng.choice([0, 1, 2, 3, 4]) if style is None else style
    if k == 0:
        return [n]
    if k == 1:
        return [1] * n if n <= 300 else rand_cuts(rng, n, 12)
    if k == 2:
        c = rng.randrange(1, n)
        return [c, n - c]
    if k == 3:
        return rand_cuts(rng, n, rng.randrange(2, 8))
    m = rng.choice([1, 2, 3])
    return [n - m, m] if n > m else [n]


def split_lines(rng, raw):
    """cuts around line ends and separators, where a parser changes state"""
    marks = [i + d for i, x in enumerate(raw[:900]) if x in b"\r\n :/" for d in (0, 1)]
    marks = sorted({m for m in marks if 0 < m < len(raw)})
    cut = sorted(rng.sample(marks, min(len(marks), rng.choice([1, 1, 2, 5, 20]))))
    cut = [0] + cut + [len(raw)]
    return [y - x for x, y in zip(cut, cut[1:])]


def conn(b, rng, c, tls=None):
    tls = rng.random() < .4 if tls is None else tls
    b("conn %s %d %s" % (c, HTTPS if tls else HTTP, "tls" if tls else "plain"))


def web(name, rng, mode="s", **kw):
    return B(name, mode=mode, rng=rng, http=[HTTP], https=[HTTPS], **kw)


def split(rng, i):
    """one request sent whole on one connection and in pieces on others"""
    b = web("split%d" % i, rng)
    knobs(b, rng)
    ts = site(b, rng)
    bad = extras(b, rng)
    seed = rng.randrange(1 << 30)
    import random
    raws = {}

    def req(c, rid, keep):
        r2 = random.Random(seed + hash_of(rid))
        if r2.random() < .2:
            return pad_head(b, r2, c, r2.choice(ts), r2.choice([4000, 4090, 4094, 4095, 4096]), keep, rid)
        return rand_request(b, r2, c, ts, keep, rid, bad)
    n = rng.choice([2, 3, 4])
    keep = rng.random() < .5
    k = rng.choice([1, 1, 2, 3]) if keep else 1
    todo = {}
    for j in range(n):
        c = "W%d" % j
        conn(b, rng, c)
        last = rng.random() < .5
        raw = b"".join(req(c, "r%d" % q, keep) for q in range(k))
        if j == 0:
            b.pieces(c, raw)
            continue
        ps = split_lines(rng, raw) if rng.random() < .4 else split_of(rng, len(raw))
        todo[c] = (raw, ps)
    # pieces of all connections interleaved
    pos = {c: 0 for c in todo}
    while todo:
        c = rng.choice(sorted(todo))
        raw, ps = todo[c]
        m = rng.choice([1, 1, 3, len(ps)])
        batch = m > 1 and rng.random() < .3
        if batch:
            b("batch")
        for p in ps[:m]:
            b("send %s %s" % (c, hx(raw[pos[c]:pos[c] + p])))
            pos[c] += p
        if batch:
            b("end")
        todo[c] = (raw, ps[m:])
        if not ps[m:]:
            del todo[c]
        if rng.random() < .1:
            b("adv %d" % rng.choice([1, 100]))
    return b.done()


def hash_of(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0xffffff
    return h


def framing(rng, i):
    """sequences of requests, kept alive and pipelined, read at any pace"""
    b = web("framing%d" % i, rng)
    knobs(b, rng)
    ts = site(b, rng)
    bad = extras(b, rng)
    cs = ["W%d" % j for j in range(rng.choice([1, 1, 2, 3]))]
    for c in cs:
        conn(b, rng, c)
    live = set(cs)
    slow = set()
    for _ in range(rng.randrange(2, 9)):
        if not live:
            break
        c = rng.choice(sorted(live))
        m = rng.choice([1, 1, 1, 2, 4])
        raw = b""
        for q in range(m):
            last = rng.random() < .12
            raw += rand_request(b, rng, c, ts, not last, None, bad)
            if last:
                live.discard(c)
                break
        if rng.random() < .45:
            b("room %s %d" % (c, rng.choice(ROOMS)))
            slow.add(c)
        b.pieces(c, raw, split_of(rng, len(raw)), batch=rng.random() < .5)
        for _ in range(rng.randrange(0, 6)):
            if not slow:
                break
            d = rng.choice(sorted(slow))
            k = rng.random()
            if k < .5:
                b("room %s +%d" % (d, rng.choice([1, 3, 29, 100, 1000, 4096, 9000, 17000])))
            elif k < .75:
                b("room %s inf" % d)
                slow.discard(d)
            elif k < .9:
                b("adv %d" % rng.choice([1, 1000, 4000]))
                b("room %s +%d" % (d, rng.choice([30, 100, 3000])))
    for d in sorted(slow):
        b("room %s inf" % d)
    return b.done()


def large(rng, i):
    """files beyond every width a count might be kept in, read at any pace"""
    b = web("large%d" % i, rng)
    knobs(b, rng)
    n = [65535, 65536, 65537, 131072, 200001, 1 << 20, (1 << 20) + 4097, 70000][i % 8]
    if i == 100:
        n = (1 << 24) + rng.choice([1, 4096, 70000])
    b.file("large.bin", n)
    b.file("a.html", 300)
    conn(b, rng, "W0")
    raw = b.request("W0", "/large.bin", keep=True) + b.request("W0", rng.choice(["/a.html", "/large.bin"]) if n < 1 << 22 else "/a.html", keep=rng.random() < .5)
    if rng.random() < .6:
        b("room W0 %d" % rng.choice(ROOMS))
    b.pieces("W0", raw, split_of(rng, len(raw)))
    for _ in range(rng.randrange(0, 8)):
        b("room W0 +%d" % rng.choice([1000, 4096, 16384, 65536, 100000]))
        b("adv %d" % rng.choice([1, 1000, 4000]))
    b("room W0 inf")
    return b.done()


def growing(rng, i):
    """somebody adds to a file, or cuts it, while it is being sent"""
    b = web("growing%d" % i, rng)
    knobs(b, rng)
    n = rng.choice([1, 100, 3000, 16000, 16383, 16384, 30000, 50000])
    b.file("log.txt", n)
    b.file("a.html", 300)
    conn(b, rng, "W0")
    b("room W0 %d" % rng.choice([0, 1, 30, 100, 200, 400, 2000, 16500, 20000]))
    b("send W0 %s" % hx(b.request("W0", "/log.txt", keep=True) + (b.request("W0", "/a.html", keep=True) if rng.random() < .5 else b"")))
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < .25:
            b("shrink W0 web/log.txt %d" % rng.choice([0, 1, n // 2, n - 1]))
            break
        b("grow web/log.txt %d" % rng.choice([1, 50, 5000, 20000]))
        b("room W0 +%d" % rng.choice([1, 100, 400, 5000, 17000]))
    b("room W0 inf", "send W0 %s" % hx(b.request("W0", "/a.html", keep=rng.random() < .5)))
    return b.done()


def huge(rng, i):
    """files of more bytes than 31 or 32 bits can count; the client takes only the start"""
    b = web("huge%d" % i, rng)
    knobs(b, rng)
    b.file("a.html", 300)
    b.file("film.bin", 60000)
    b.meta["fsize"]["film.bin"] = n = rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 5000, 3 * 10 ** 9, 9 * 10 ** 9])
    b("extend web/film.bin %d" % n)
    conn(b, rng, "W0")
    b("room W0 %d" % rng.choice([0, 100, 400, 5000, 17000, 40000]))
    b("send W0 %s" % hx(b.request("W0", "/film.bin", keep=rng.random() < .5)))
    for _ in range(rng.randrange(1, 4)):
        b("room W0 +%d" % rng.choice([1, 400, 3000, 5000]))
    b("rst W0")
    conn(b, rng, "W1")
    b("send W1 %s" % hx(b.request("W1", "/a.html", keep=rng.random() < .5)))
    return b.done()


def many(rng, i):
    """a long pipeline in few segments"""
    b = web("many%d" % i, rng)
    knobs(b, rng)
    ts = site(b, rng, 3)
    conn(b, rng, "W0")
    n = rng.choice([10, 30, 60])
    raw = b""
    for k in range(n):
        if rng.random() < .25:
            raw += b.request("W0", "/echo", meth="POST", body=rng.choice([1, 7, 300, 3000, 4096, 6000]), keep=k < n - 1)
        else:
            raw += b.request("W0", rng.choice(ts + ["/missing", "/echo"]), keep=k < n - 1)
    if rng.random() < .5:
        b("room W0 %d" % rng.choice([0, 1000, 20000]))
    b.pieces("W0", raw, split_of(rng, len(raw), 3), batch=True)
    for _ in range(rng.randrange(0, 5)):
        b("room W0 +%d" % rng.choice([100, 5000, 40000]))
    b("room W0 inf")
    return b.done()


UP = ["..", "../", "/..", "/../", "..//", "/.././", "%2e%2e/", "%2E%2E%2F", "..%2f", ".%2e/", "..\\", "..;/", ".../", "./", "//", "/"]


def norm(target, index="index.html"):
    """what the file system makes of the target, or None if it leaves the root"""
    p = target + index if target.endswith("/") else target
    out = []
    for seg in p.split("/"):
        if seg in ("", "."):
            continue
        if seg == "..":
            if not out:
                return None
            out.pop()
        else:
            out.append(seg)
    return "/".join(out)


def escape(rng, i):
    """targets that try to leave the document root, at every length"""
    b = web("escape%d" % i, rng)
    knobs(b, rng)
    ts = site(b, rng)
    b.files.setdefault("d", "DIR") if not any(k.startswith("d/") for k in b.files) else None
    b.outside = {"secret.txt": pattern("S:secret", 0, 600), "webx/secret.txt": pattern("S:webx", 0, 600), "index.html": pattern("S:idx", 0, 600)}
    b.meta["secrets"] = {"S:secret": 600, "S:webx": 600, "S:idx": 600}
    leaves = ["secret.txt", "webx/secret.txt", "index.html", "", "keys.json", "cert.pem", "config/config.json", "web/index.html"]
    for j in range(rng.randrange(3, 8)):
        c = "W%d" % j
        conn(b, rng, c)
        k = rng.random()
        if k < .55:
            pre = rng.choice(["/", "/d/", "/d/e/", "/x/", "//", "/./", "/" + "./" * rng.choice([1, 5, 500, 900, 990]), "/" + "d/../" * rng.choice([0, 1, 3]),
                              "/" + "p" * rng.choice([1, 100, 250]) + "/", "/" + "/" * rng.choice([10, 400, 1000, 1900, 2000])])
            t = pre + "".join(rng.choice(UP[:8]) for _ in range(rng.choice([1, 1, 2, 4]))) + rng.choice(["", "/", ""]) + rng.choice(leaves)
        elif k < .7:
            t = "/" + "".join(rng.choice(UP + ["d", "a.html", "secret.txt"]) for _ in range(rng.randrange(1, 8)))
        elif k < .8:
            t = rng.choice(["http://h", "http://h:80", "x://y"]) + "/" + rng.choice(["../", "d/../../", "..", "d/.."]) + rng.choice(leaves)
        elif k < .9:
            # an absolute path of the file system as target
            t = rng.choice(["/", "//"]) + rng.choice(["etc/passwd", "etc/passwd", "usr/local/s5/secret.txt", "usr/local/s5/webx/secret.txt"])
        else:
            t = rng.choice(ts)
        if "://" not in t and t.startswith("/") and rng.random() < .25:
            t = rng.choice(["http://h", "http://h:80", "https://a.b"]) + t
        t = t.replace("\\", rng.choice(["\\", "/"]))
        if "/.../" in t or t.startswith(".../") or len(t) > 3900:
            t = rng.choice(ts)
        import re
        uri = t
        if "://" in uri:
            uri = "/" + uri.split("://", 1)[1].split("/", 1)[1]
        # "../" after another character is no parent segment; leave such targets out
        if re.search(r"[^/]\.\./", uri):
            continue
        p = norm(uri)
        if p is not None and ".." in uri.split("/") and uri.endswith(".."):
            p = "\0"          # a directory
        if uri.endswith("/."):
            p = "\0"
        if len(uri) > 1800:
            p = "\0"          # longer than any name that is served
        raw = b.request(c, t, keep=rng.random() < .5, path=p if p is not None else "\0")
        b.pieces(c, raw, split_of(rng, len(raw), rng.choice([0, 2])))
    return b.done()


def shared(rng, i):
    """both kinds of client on one port"""
    b = B("shared%d" % i, mode="m", rng=rng, https=[HTTPS], http=[HTTP])
    knobs(b, rng)
    ts = site(b, rng)
    legs = []
    for j in range(rng.randrange(2, 6)):
        if rng.random() < .45:
            c = "C%d" % j
            b.meta["kinds"][c] = "tun"
            if rng.random() < .5:
                legs.append((c, b.tunnel(c, port=HTTPS)))
            else:
                b("conn %s %d tls" % (c, HTTPS))
                good = rng.random() < .7
                h = auth_header() if good else auth_header(b"wrongwrong")
                pre = h + (GREET if rng.random() < .4 else b"")
                b.pieces(c, pre, split_of(rng, len(pre)), batch=rng.random() < .3)
                if good:
                    if len(pre) == 36:
                        b("send %s %s" % (c, hx(GREET)))
                    t = b.newport(c)
                    b("send %s %s" % (c, hx(req_ip("9.9.9.%d" % j, t))))
                    b.nup += 1
                    legs.append((c, "U%d" % b.nup))
        else:
            c = "W%d" % j
            b.meta["kinds"][c] = "web"
            b("conn %s %d tls" % (c, HTTPS))
            k = rng.choice([1, 1, 2, 3])
            raw = b""
            for q in range(k):
                last = q == k - 1 and rng.random() < .5
                if q == 0 and rng.random() < .5:
                    raw += pad_head(b, rng, c, rng.choice(ts + ["/"]), rng.choice([36, 36, 37, 38, 40, 50, 4000, 4095, 4096]), not last)
                else:
                    raw += rand_request(b, rng, c, ts, not last)
            if len(raw) < 36:
                raw += rand_request(b, rng, c, ts, True)
            b.pieces(c, raw, split_of(rng, len(raw)) if rng.random() < .6 else split_lines(rng, raw), batch=rng.random() < .3)
    if legs:
        relay_ops(b, rng, legs, rng.randrange(2, 10), ends=rng.random() < .3, big=False)
        for c, u in legs:
            b("room %s inf" % c, "room %s inf" % u)
    return b.done()


def short(rng, i):
    """a shared port and first bytes that look like the magic number for a while"""
    b = B("short%d" % i, mode="m", rng=rng, https=[HTTPS])
    knobs(b, rng)
    b.file("index.html", 700)
    h = auth_header()
    for j in range(4):
        c = "C%d" % j
        k = rng.random()
        if k < .4:
            b.meta["kinds"][c] = "tun"
            b("conn %s %d tls" % (c, HTTPS))
            b.pieces(c, h, rand_cuts(rng, 36, rng.randrange(1, 6)))
            b("send %s %s" % (c, hx(GREET)))
            t = b.newport(c)
            b("send %s %s" % (c, hx(req_ip("9.9.9.%d" % j, t))))
        else:
            b.meta["kinds"][c] = "web"
            b("conn %s %d tls" % (c, HTTPS))
            raw = pad_head(b, rng, c, "/", rng.choice([36, 37, 60]), rng.random() < .5)
            b.pieces(c, raw, rng.choice([[1, len(raw) - 1], [4, len(raw) - 4], [35, len(raw) - 35], [3, 1, len(raw) - 4], [36, len(raw) - 36] if len(raw) > 36 else [len(raw)]]))
    return b.done()


WEB = """SPECIFICATION Spec
CONSTANTS Cap = %d
 Heads = {%s}
 Bodies = {%s}
 Rsps = {1, 2}
 MaxReqs = %d
 MaxRoom = %d
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""


def web_cfg(reqs, check="", flaw="none", cap=3, heads="1, 3", bodies="0, 1", room=1):
    return WEB % (cap, heads, bodies, reqs, room, flaw,
                  {"": "", "all": "INVARIANTS Clear Bodies_ InOrder Kept\nVIEW View", "live": "INVARIANTS Clear Bodies_ InOrder Kept\nPROPERTIES Answered"}[check])


def web_model(rng, rnd, num):
    """behaviours of the model of a web connection; its buffer is four units long"""
    ps = graph.behaviours("WebMC", web_cfg(4, cap=4, heads="1, 2, 4", bodies="0, 1, 3", room=2), rng, num, 70)
    out = []
    for i, p in enumerate(ps):
        mode = "sm"[(i + rnd) % 2]
        b = web("webmodel%d%s" % (i, mode), rng, mode)
        knobs(b, rng)
        unit = rng.choice([1024, 1024, 1024, 200])
        for k in (1, 2):
            b.file("r%d.html" % k, k * rng.choice([1, 5000, 16320, 16344, 16384, 20000]))
        c = "W0"
        conn(b, rng, c)
        slow = any(o[0] == "read" for o in p) and rng.random() < .7
        grain = rng.choice([100, 3000, 20000])
        if slow:
            b("room %s %d" % (c, 2 * grain))
        todo = b""
        # a shared port waits for a first piece
        for o in p[1:]:
            if o[0] == "req":
                h, bl, r, keep = int(o[1]), int(o[2]), int(o[3]), o[4] == "1"
                kw = dict(meth="POST", body=bl * unit) if bl else {}
                todo += pad_head(b, rng, c, "/echo" if bl else rng.choice(["/r%d.html" % r, "/r%d.html" % r, "/none%d" % r]), h * unit, keep=keep, **kw)
            elif o[0] == "push":
                n = int(o[1]) * unit
                b("send %s %s" % (c, hx(todo[:n])))
                todo = todo[n:]
            elif o[0] == "read" and slow:
                b("room %s +%d" % (c, 2 * grain))
        if slow:
            b("room %s inf" % c)
        if todo and rng.random() < .8:
            b("send %s %s" % (c, hx(todo)))
        out.append(b.done())
    return out


FILE = """SPECIFICATION Spec
CONSTANTS Max = %d
 Cap = %d
 Changes = %d
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""


def file_cfg(top, cap, changes, check=False, flaw="none"):
    return FILE % (top, cap, changes, flaw, ("INVARIANTS Content Framed Whole\n" + ("PROPERTIES Ends" if flaw == "none" else "VIEW View")) if check else "")


def file_model(rng, rnd, num):
    """behaviours of the model of a file that changes while it is sent"""
    out = []
    for i, p in enumerate(graph.behaviours("FileMC", file_cfg(5, 2, 3), rng, num, 40)):
        b = web("filemodel%d" % i, rng, "sm"[(i + rnd) % 2])
        knobs(b, rng)
        unit = rng.choice([8172, 8172, 8192, 8192, 5000, 16344, 1, 300])
        k = next((k for k, o in enumerate(p) if o[0] == "ask"), len(p))
        n = int(p[0][1])
        for o in p[1:k]:
            n = n + int(o[1]) if o[0] == "grow" else int(o[1])
        b.file("f.html", n * unit)
        b.file("a.html", 300)
        conn(b, rng, "W0")
        b("room W0 %d" % rng.choice([0, 1, 100, 140, 200, 500]), "send W0 %s" % hx(b.request("W0", "/f.html", keep=True)))
        for o in p[k + 1:]:
            if o[0] == "take":
                b("room W0 +%d" % (int(o[1]) * unit))
            elif o[0] == "grow":
                b("grow web/f.html %d" % (int(o[1]) * unit))
            elif o[0] == "cut":
                b("%s web/f.html %d" % ("shrink W0" if int(o[1]) < n else "extend", int(o[1]) * unit))
        b("room W0 inf", "send W0 %s" % hx(b.request("W0", "/a.html", keep=rng.random() < .5)))
        out.append(b.done())
    return out


def P09(rng, tier, rnd=0):
    return [split(rng, i) for i in range(60)] + web_model(rng, rnd, 20)


def P10(rng, tier, rnd=0):
    return (web_model(rng, rnd, 15) + [framing(rng, i) for i in range(45)] + [many(rng, i) for i in range(5)] + file_model(rng, rnd, 12) + [growing(rng, i) for i in range(5)] +
            [huge(rng, i) for i in range(3)] + [large(rng, 2 * rnd + i) for i in range(2)] +
            ([large(rng, 100)] if rnd == 0 and tier != "quick" else []))


PATHS = """SPECIFICATION Spec
CONSTANTS Segs = {%s}
 MaxLen = %d
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""
SEGS = ["..", ".", "", "f", "d", "i", "...", "a..", "webx", "%2e%2e", "..%2f"]


def path_cfg(n, checked=False, flaw="none"):
    return PATHS % (", ".join('"%s"' % x for x in SEGS), n, flaw, "INVARIANTS Contained Served" if checked else "")


def path_model(rng, i, num):
    """targets of the model of the document root, and what it says of them"""
    b = web("path%d" % i, rng)
    knobs(b, rng)
    ops = graph.graph("PathMC", path_cfg(4))[0]
    name = {"f": "f.html", "i": "index.html"}
    for p in ("f", "i", "d/f", "d/i"):
        b.file("/".join(name.get(x, x) for x in p.split("/")), rng.choice([1, 100, 600]))
    b.outside = {p: pattern("S:" + p, 0, 600) for p in ("f.html", "index.html", "webx/f.html", "d/f.html")}
    b.meta["secrets"] = {"S:" + p: 600 for p in b.outside}
    for j, n in enumerate(rng.sample(sorted(ops), num)):
        verdict, segs = ops[n][0], ops[n][1:]
        at = []
        for s in segs[:-1] + ([segs[-1] or "i"] if segs else ["i"]):
            if s == "..":
                at = at[:-1]
            elif s not in ("", "."):
                at.append(name.get(s, s))
        t = "/" + "/".join(name.get(s, s) for s in segs)
        if rng.random() < .2:
            t = "http://h" + t
        c = "W%d" % j
        conn(b, rng, c)
        raw = b.request(c, t, keep=rng.random() < .5, path="/".join(at) if verdict == "file" else "\0")
        b.pieces(c, raw, split_of(rng, len(raw), rng.choice([0, 2])))
    return b.done()


def P11(rng, tier, rnd=0):
    return [escape(rng, i) for i in range(60)] + [path_model(rng, i, 12) for i in range(40)]


def P20(rng, tier, rnd=0):
    return [shared(rng, i) for i in range(50)] + [short(rng, i) for i in range(10)]


CALENDAR = """SPECIFICATION Spec
CONSTANTS First = %d
 Last = %d
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""


def calendar_cfg(first, last, checked=False, flaw="none"):
    return CALENDAR % (first, last, flaw, "INVARIANT Agrees" if checked else "")


KINDS = [".html", ".htm", ".css", ".txt", ".js", ".json", ".m3u8", ".png", ".jpg", ".jpeg", ".gif", ".ico", ".mp3", ".ts"]
OTHERS = [".bin", ".HTML", ".Png", ".htmlx", ".h", ".j", ".jso", ".mp4", ".tar.gz", ".", "", "x", "html", ".m3u", ".tss", ".p ng"[:2], ".html~", ".js.bak", "-.css-"]


def heads(rng, i, days):
    """responses of all kinds, at moments around the turn of seconds, days, months and years"""
    b = web("heads%d" % i, rng, rng.choice("scm"), http_index=rng.choice(["index.html", "start.htm", "home", "i.json"]))
    day = rng.choice(days) if rng.random() < .8 else rng.randrange(365, 49000)
    sec = rng.choice([86399, 86399, 86398, 0, 43199, 45296, 3599, 35999, rng.randrange(86400)])
    b.s.insert(0, "epoch %d" % ((day * 86400 + sec) * 1000 + rng.choice([0, 1, 500, 998, 999, rng.randrange(1000)])))
    knobs(b, rng)
    index = b.config["http_index"]
    names = []
    for k, x in enumerate(rng.sample(KINDS, 5) + rng.sample(OTHERS, 3)):
        d = rng.choice(["", "", "d/", "d.html/", "a.b/c.js/", "v1.css/"])
        names.append(d + rng.choice(["f%d", "x.y%d", "many.dots.%d", "n%d.html"]) % k + x)
    names += rng.sample([index, "d/" + index, "v1.css/" + index], 2)
    for n in names:
        b.file(n, rng.choice([0, 1, 100, 5000, 17000]))
    ts = ["/" + n for n in names] + ["/" + n[:-len(index)] for n in names if n.endswith("/" + index) or n == index]
    bad = extras(b, rng)
    cs = ["W%d" % j for j in range(rng.choice([1, 2, 3]))]
    for c in cs:
        if b.mode == "m":
            b.meta["kinds"][c] = "web"
        conn(b, rng, c)
    live = set(cs)
    for _ in range(rng.randrange(4, 12)):
        if not live:
            break
        c = rng.choice(sorted(live))
        raw = b""
        for q in range(rng.choice([1, 1, 1, 2, 3])):
            last = rng.random() < .1
            k = rng.random()
            head = [("Host", "a.example"), ("User-Agent", "x" * 20)]
            if k < .12:
                raw += b.request(c, "/echo", meth="POST", body=rng.choice([1, 300, 5000]), keep=not last, headers=head)
            else:
                raw += b.request(c, rng.choice(ts) if k < .85 else rng.choice(bad + ["/echo"]), keep=not last, headers=head)
            if last:
                live.discard(c)
                break
        slow = rng.random() < .2
        if slow:
            b("room %s %d" % (c, rng.choice([0, 0, 20, 60, 200])))
        b.pieces(c, raw, split_of(rng, len(raw)), batch=rng.random() < .5)
        if slow:
            b("adv %d" % rng.choice([1, 400, 1000, 2500]), "room %s inf" % c)
        b("adv %d" % rng.choice([1, 1, 2, 499, 500, 999, 1000, 1001, 2000, 3500, 4900]))
    return b.done()


def P28(rng, tier, rnd=0):
    first = rng.choice([1971, 1996, 1999, 2023, 2027, 2036, 2096, 2097, 2099, rng.randrange(1971, 2100)])
    days = [int(o[1]) for o in graph.graph("CalendarMC", calendar_cfg(first, first + 3))[0].values() if o[0] == "turn"]
    return [heads(rng, i, sorted(days)) for i in range(60)]
