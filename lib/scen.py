"""Writing scenarios: a small builder over the simulator's script language."""
import random
from sim import Scenario, base_config, auth_header, GREET, req_ip, req_dom, hx, pattern, KEY, KEY2

QID = b"\xbe\xef"


def rand_cuts(rng, n, k):
    """k random cut points of n bytes -> piece lengths"""
    cuts = sorted(rng.sample(range(1, n), min(k, n - 1))) if n > 1 else []
    cuts = [0] + cuts + [n]
    return [b - a for a, b in zip(cuts, cuts[1:])]


class B:
    def __init__(self, name, mode="s", rng=None, **cfg):
        self.rng = rng or random.Random(0)
        self.name = name
        self.config = base_config(mode, **cfg)
        self.mode = mode
        # where tunnel clients go
        self.tport = (cfg.get("https") or [3333])[0] if mode == "m" else 3333
        self.s = []
        self.meta = {"ports": {}, "kinds": {}, "reqs": {}, "fkind": {}, "fsrc": {}, "fsize": {}, "secrets": {}}
        self.files, self.outside = {}, {}
        self.variant = "simh"
        self.nport = 20000
        self.nup = 0
        self.off = {}

    def __call__(self, *cmds):
        self.s.extend(cmds)
        return self

    # ---- pieces of text ----
    def pieces(self, c, data, pieces=None, batch=False):
        """send literal bytes in pieces, each a segment (and TLS record) of its own"""
        if pieces is None:
            pieces = [len(data)]
        o = 0
        if batch:
            self("batch")
        for n in pieces:
            self("send %s %s" % (c, hx(data[o:o + n])))
            o += n
        if batch:
            self("end")
        return self

    def newport(self, c):
        self.nport += 1
        self.meta["ports"][c] = self.nport
        return self.nport

    def port_of(self, svc="tun"):
        return {"s": 3333, "c": 1080}.get(self.mode)

    # ---- server role ----
    def tunnel(self, c, ip="1.2.3.4", dom=None, port=None, key=KEY, dns=None, opts="", hs=True):
        """an established tunnel; the outbound connection is U<n> (returned)"""
        p = port or self.tport
        t = self.newport(c)
        if self.mode == "m":
            self.meta["kinds"][c] = "tun"
        if hs:
            self("conn %s %d tls %s" % (c, p, opts))
        self("send %s %s" % (c, hx(auth_header(key.encode() if isinstance(key, str) else key))))
        self("send %s %s" % (c, hx(GREET)))
        self("send %s %s" % (c, hx(req_dom(dom, t) if dom else req_ip(ip, t))))
        self.nup += 1
        return "U%d" % self.nup

    # ---- local role ----
    def app(self, c, first=20, opts=""):
        self("conn %s 1080 plain %s" % (c, opts))
        self("send %s pat:%d" % (c, first))
        self.nup += 1
        return "U%d" % self.nup

    # ---- web ----
    def file(self, rel, size, kind="file"):
        src = "F:" + rel
        self.files[rel] = pattern(src, 0, size)
        self.meta["fsrc"][rel] = src
        if kind != "file":
            self.meta["fkind"][rel] = kind
        return self

    def request(self, c, target, meth="GET", keep=False, body=None, headers=(), ver="HTTP/1.1", ok=True, path=None, rid=None):
        """append a request to what c is going to send; returns its bytes"""
        if self.mode == "m":
            self.meta["kinds"].setdefault(c, "web")
        hs = list(headers)
        if keep:
            hs.append(("Connection", "Keep-Alive"))
        data = b""
        bname = ""
        if body is not None:
            bname = "B:%s:%d" % (rid or c, len(self.meta["reqs"].get(c, [])))
            data = pattern(bname, 0, body)
            hs.append(("Content-Length", str(body)))
        raw = ("%s %s %s\r\n" % (meth, target, ver)).encode("latin1")
        for k, v in hs:
            raw += ("%s: %s\r\n" % (k, v)).encode("latin1")
        raw += b"\r\n" + data
        rs = self.meta["reqs"].setdefault(c, [])
        uri = target
        if "://" in uri:
            rest = uri.split("://", 1)[1]
            uri = "/" + rest.split("/", 1)[1] if "/" in rest else "/"
        if path is None:
            path = uri.lstrip("/") if not uri.endswith("/") else (uri.lstrip("/") + self.config["http_index"])
            while "//" in path:
                path = path.replace("//", "/")
        at = rs[-1]["end"] if rs else 0
        rs.append({"end": at + len(raw), "head": at + len(raw) - len(data), "ok": ok, "meth": meth if meth in ("GET", "POST") else "OTHER",
                   "api": uri == "/echo", "esc": "../" in uri, "path": path, "keep": keep, "blen": body or 0, "body": bname,
                   "id": rid or ""})
        if not rid:
            rs[-1]["id"] = "%s.%d" % (c, len(rs))
        return raw

    def done(self, lift=(), victims=None, subjects=None, settle=True, **meta):
        if settle:
            # let every limit pass so that ended sessions have to be gone
            self("adv 30000")
        self.meta.update(meta)
        self.meta["lift"] = list(lift)
        if victims is not None:
            self.meta["victims"] = list(victims)
        if subjects is not None:
            self.meta["subjects"] = list(subjects)
        return Scenario(self.name, self.config, self.s, self.files, self.variant, None, self.meta, None, self.outside)


# ---- DNS ----
def qname(name):
    if isinstance(name, str):
        name = name.encode()
    return b"".join(bytes([len(x)]) + x for x in name.split(b".")) + b"\0"


def rr(name, typ, ttl, data, cls=1):
    return name + typ.to_bytes(2, "big") + cls.to_bytes(2, "big") + (ttl & 0xffffffff).to_bytes(4, "big") + len(data).to_bytes(2, "big") + data


def dns_reply(name, answers=(), auth=(), add=(), counts=None, flags=0x8180, qn=None, qid=QID, qd=1):
    a, u, d = counts or (len(answers), len(auth), len(add))
    h = qid + flags.to_bytes(2, "big") + qd.to_bytes(2, "big") + a.to_bytes(2, "big") + u.to_bytes(2, "big") + d.to_bytes(2, "big")
    return h + (qname(name) if qn is None else qn) + b"\0\1\0\1" + b"".join(answers) + b"".join(auth) + b"".join(add)


def a_rr(ip, ttl=300, name=b"\xc0\x0c"):
    return rr(name, 1, ttl, bytes(int(x) for x in ip.split(".")))
