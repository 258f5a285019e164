"""Projection of recorded executions to the vocabulary of the specification.

Bytes that endpoints send as numbered pattern streams are reported as runs
(stream, offset, length); web responses are cut into heads and bodies.  The
projection only names what was observed, it does not judge it."""
import os, re
from sim import pattern, KEY

PREFACE = 12          # literal bytes a tunnel client receives before relayed ones
HEADER = 36           # literal bytes the tunnel server receives before relayed ones


def ip4(s):
    return [int(x) for x in s.split(".")]


def blist(b):
    return list(b)


def moment(sc):
    """when it begins"""
    ms = int(sc.script[0].split()[1]) if sc.script and sc.script[0].startswith("epoch ") else 1700000000000
    return {"day": ms // 86400000, "sec": ms // 1000 % 86400, "ms": ms % 1000}


def config_of(sc):
    c = sc.config
    mode = {1: "c", 2: "s", 3: "m"}[c.get("s5_mode", 2)]
    keys = sc.meta.get("keys")
    if keys is None:
        keys = [k for k in c.get("_keys", []) if isinstance(k, str)]
    return {"mode": mode, "local": c.get("s5_local_port", 0), "tunnel": c.get("s5_serv_port", 0), "http": c.get("http_arr", []), "https": c.get("https_arr", []),
            "keys": [blist(k if isinstance(k, bytes) else k.encode("utf-8", "surrogateescape")) for k in keys],
            "authkey": blist(c.get("s5_local_auth", "").encode()[:16]),
            "servip": ip4(c.get("s5_local_serv_ip", "0.0.0.0")), "servport": c.get("s5_local_serv_port", 0),
            "resolver": ip4(c.get("s5_serv_gw") or "8.8.8.8"), **moment(sc)}


class Streams:
    """Decodes output bytes as runs of the streams the endpoints send."""

    def __init__(self):
        self.avail = {}            # stream -> bytes that exist so far

    def produced(self, s, upto):
        self.avail[s] = max(self.avail.get(s, 0), upto)

    def decode(self, data, hint, off):
        """-> list of (stream, offset, n)"""
        out = []
        while data:
            n = 0
            if hint is not None:
                p = pattern(hint, off, len(data))
                if p == data:
                    n = len(data)
                else:
                    lo, hi = 0, len(data)
                    while lo < hi:                      # longest common prefix
                        mid = (lo + hi + 1) // 2
                        if p[:mid] == data[:mid]:
                            lo = mid
                        else:
                            hi = mid - 1
                    n = lo
            if n:
                out.append((hint, off, n))
                off += n
                data = data[n:]
                continue
            # not where it was expected: look for it elsewhere
            found = None
            if len(data) >= 8:
                order = ([hint] if hint else []) + [s for s in self.avail if s != hint]
                for s in order:
                    buf = pattern(s, 0, min(self.avail.get(s, 0) + 64, 1 << 19))
                    k = buf.find(data[:12])
                    if k >= 0:
                        found = (s, k)
                        break
            if found is None:
                out.append(("?", 0, len(data)))
                return out
            hint, off = found
        return out


def scale(n, huge):
    """a length as a number the specification can hold: those of huge files are only told apart"""
    return n if n < 10 ** 9 else 10 ** 9 + (1 + huge.index(n) if n in huge else 0)


class Http:
    """Cuts the byte stream of a web connection into heads and bodies."""

    def __init__(self, c, st, huge=()):
        self.huge = huge
        self.c, self.st, self.buf, self.mode, self.left, self.k = c, st, b"", "head", 0, 0
        self.hint, self.off = None, 0

    def feed(self, data, reqs, fs, emit):
        self.buf += data
        while True:
            if self.mode == "dead":
                if self.buf:
                    emit({"e": "body", "c": self.c, "s": "?", "o": 0, "n": len(self.buf)})
                self.buf = b""
                return
            if self.mode == "head":
                i = self.buf.find(b"\r\n\r\n")
                if i < 0:
                    if len(self.buf) > 8192 or (self.buf and not b"HTTP/1.".startswith(self.buf[:7]) and not self.buf.startswith(b"HTTP/1.")):
                        emit(dict(self.bad()))
                        self.mode = "dead"
                        continue
                    return
                head, self.buf = self.buf[:i], self.buf[i + 4:]
                r, self.left = self.parse(head)
                emit(r)
                if not r["wf"]:
                    self.mode = "dead"
                    continue
                self.mode = "body"
                q = reqs[self.k] if self.k < len(reqs) else None
                self.hint, self.off = None, 0
                if q is not None:
                    if q["api"] and q["meth"] == "POST":
                        self.hint = q["body"]
                    elif not q["api"]:
                        self.hint = fs.get(q["path"], {}).get("src") or None
                if self.left == 0:
                    emit({"e": "body", "c": self.c, "s": "", "o": 0, "n": 0})
                    self.mode = "head"
                    self.k += 1
                continue
            if not self.buf:
                return
            part, self.buf = self.buf[:self.left], self.buf[self.left:]
            self.left -= len(part)
            for s, o, n in self.st.decode(part, self.hint, self.off):
                emit({"e": "body", "c": self.c, "s": s, "o": o, "n": n})
                if s == self.hint:
                    self.off = o + n
            if self.left == 0:
                self.mode = "head"
                self.k += 1

    def bad(self):
        return {"e": "rsp", "c": self.c, "wf": False, "status": 0, "clen": 0, "sig": "", "date": "", "keep": "", "type": ""}

    def parse(self, head):
        lines = head.split(b"\r\n")
        m = re.fullmatch(rb"HTTP/1\.[01] (\d{3}) [\x20-\x7e]+", lines[0])
        if not m:
            return self.bad(), 0
        clen, sig, said = None, [lines[0]], {}
        for ln in lines[1:]:
            h = re.fullmatch(rb"([!#$%&'*+.^_`|~0-9A-Za-z-]+):[ \t]*([\x20-\x7e\t]*)", ln)
            if not h:
                return self.bad(), 0
            said.setdefault(h.group(1).lower(), h.group(2).decode("latin1"))
            if h.group(1).lower() == b"content-length":
                if clen is not None or not re.fullmatch(rb"\d{1,18}", h.group(2)):
                    return self.bad(), 0
                clen = int(h.group(2))
            if h.group(1).lower() != b"date":
                sig.append(ln)
        if clen is None:
            return self.bad(), 0
        return {"e": "rsp", "c": self.c, "wf": True, "status": int(m.group(1)), "clen": scale(clen, self.huge),
                "sig": b"\n".join(sig).decode("latin1"), "date": said.get(b"date", ""), "keep": said.get(b"connection", "").lower(),
                "type": said.get(b"content-type", "").split(";")[0].strip().lower()}, clen


def owners_local(ev, port):
    """local role: which application connection a connection to the server belongs to"""
    first, size, shut, outs, dials, apps, turn = {}, {}, {}, {}, {}, set(), [0] * len(ev)
    for i, e in enumerate(ev):
        k = e["e"]
        turn[i] = turn[i - 1] + (k == "q") if i else 0
        if k == "conn" and e["port"] == port:
            apps.add(e["c"])
        elif k in ("in", "fin", "rst", "wire", "junk") and e["c"] in apps:
            first.setdefault(e["c"], i)
            if k == "in":
                size[e["c"]] = size.get(e["c"], 0) + e.get("n", len(e.get("h", "")) // 2)
        elif k == "out" and e["c"].startswith("U"):
            outs[e["c"]] = outs.get(e["c"], b"") + bytes.fromhex(e["h"])
        elif k == "dial":
            dials[e["c"]] = i
        elif k == "close":
            shut[e["c"]] = i
    end = len(ev)
    pairs = []
    for u, i in dials.items():
        d = outs.get(u, b"")[HEADER:HEADER + 64]
        for c in first:
            if first[c] < i < shut.get(c, end):
                fits = len(d) <= size.get(c, 0) and pattern(c, 0, len(d)) == d
                # told apart by what is relayed, else by the turn, else by ending together
                pairs.append((not fits, -len(d), turn[i] - turn[first[c]], abs(shut.get(c, end) - shut.get(u, end)), i, first[c], u, c))
    res, of, can = {}, {}, {}
    for *_, u, c in sorted(pairs):
        can.setdefault(u, []).append(c)
        if u not in res and c not in of:
            res[u] = c
            of[c] = u

    def place(u, seen):
        for c in can.get(u, ()):
            if c not in seen:
                seen.add(c)
                if c not in of or place(of[c], seen):
                    res[u] = c
                    of[c] = u
                    return True
        return False
    for u in dials:
        if u not in res:
            place(u, set())
    return res


def segments(path):
    return [re.sub(r"[^ -~]", "?", x) for x in path.split("/")[1:]]


def project(sc, ev, idx):
    """-> one scenario record for WorkerTrace"""
    cfg = config_of(sc)
    # to know how to read what comes back
    svc = {p: "http" for p in cfg["http"]}
    svc.update((p, "shared" if cfg["mode"] == "m" else "https") for p in cfg["https"])
    if cfg["mode"] != "m":
        svc[cfg["local"] if cfg["mode"] == "c" else cfg["tunnel"]] = "local" if cfg["mode"] == "c" else "tun"
    m = sc.meta
    reqs = {c: rs for c, rs in m.get("reqs", {}).items()}
    fs, huge = {}, sorted(m.get("fsize", {}).values())
    for rel, data in sc.files.items():
        if data == "DIR":
            fs[rel] = {"path": rel, "kind": "dir", "size": 0, "src": ""}
        else:
            fs[rel] = {"path": rel, "kind": m.get("fkind", {}).get(rel, "file"), "size": scale(m.get("fsize", {}).get(rel, len(data)), huge),
                       "src": m.get("fsrc", {}).get(rel, "")}
    st = Streams()
    for f in fs.values():
        if f["src"]:
            st.produced(f["src"], len(sc.files[f["path"]]))
    for src, n in m.get("secrets", {}).items():
        st.produced(src, n)
    for rs in reqs.values():
        for q in rs:
            if q["body"]:
                st.produced(q["body"], q["blen"])
    ports = {p: c for c, p in m.get("ports", {}).items()}      # requested port -> client
    own = owners_local(ev, sc.config["s5_local_port"]) if cfg["mode"] == "c" else {}
    peer = {}                                                   # endpoint -> stream it should receive
    conn, got, tls, http, outn, indone = {}, {}, {}, {}, {}, {}
    out = []

    def emit(e, t):
        e["t"] = t
        out.append(e)

    for e in ev:
        k, t = e["e"], e["t"]
        if k == "listen":
            emit({"e": "listen", "port": e["port"]}, t)
        elif k == "start":
            emit({"e": "start"}, t)
        elif k == "conn":
            c = e["c"]
            conn[c] = svc.get(e["port"], "none")
            tls[c] = e["tls"]
            kind = m.get("kinds", {}).get(c)
            if kind is None:
                kind = {"http": "web", "https": "web", "tun": "tun", "local": "local", "none": "raw"}.get(conn[c], "tun")
            if conn[c] in ("tun", "https", "shared") and not e["tls"] or conn[c] in ("http", "local") and e["tls"]:
                kind = "raw"
            conn[c] = kind
            if kind == "web":
                http[c] = Http(c, st, huge)
            emit({"e": "conn", "c": c, "port": e["port"], "tls": e["tls"], "refused": e["refused"]}, t)
        elif k == "accept":
            emit({"e": "accept", "c": e["c"]}, t)
        elif k == "in":
            c = e["c"]
            if "h" in e:
                b = bytes.fromhex(e["h"])
                n, p = len(b), -1
            else:
                n, p = e["n"], e["pat"]
                st.produced(c, p + n)
                b = pattern(c, p, n) if n <= 300 else b""
            tot = indone.get(c, 0)
            indone[c] = tot + n
            lit = c in conn and conn[c] in ("tun", "web") and tot < 700
            emit({"e": "in", "c": c, "n": n, "p": p, "b": blist(b[:700]) if lit else []}, t)
        elif k in ("ku", "shrunk"):
            emit({"e": k, "c": e["c"]}, t)
        elif k == "wire":
            emit({"e": "junk" if e["c"] in m.get("plainups", ()) else "wire", "c": e["c"]}, t)
        elif k == "out":
            c = e["c"]
            b = bytes.fromhex(e["h"])
            if c in http:
                http[c].feed(b, reqs.get(c, []), fs, lambda x: emit(x, t))
                continue
            if c in m.get("plainups", ()):
                # a server that does not speak TLS sees the records themselves
                if b[:1] not in (b"\x14", b"\x15", b"\x16") and not outn.get(c):
                    emit({"e": "outraw", "c": c}, t)
                outn[c] = 1
                continue
            if conn.get(c) == "raw":
                emit({"e": "out", "c": c, "k": "lit", "b": blist(b[:64])}, t)
                continue
            if conn.get(c) == "tun":
                litmax = PREFACE
            elif c.startswith("U") and cfg["mode"] == "c":
                litmax = HEADER
            else:
                litmax = 0
            n0 = outn.get(c, 0)
            outn[c] = n0 + len(b)
            if n0 < litmax:
                lit, b = b[:litmax - n0], b[litmax - n0:]
                # the first reply and what follows it are different messages
                if conn.get(c) == "tun" and n0 < 2 < n0 + len(lit):
                    emit({"e": "out", "c": c, "k": "lit", "b": blist(lit[:2 - n0])}, t)
                    lit = lit[2 - n0:]
                emit({"e": "out", "c": c, "k": "lit", "b": blist(lit)}, t)
            if b:
                for s, o, n in st.decode(b, peer.get(c), got.get(c, 0)):
                    emit({"e": "out", "c": c, "k": "run", "s": s, "o": o, "n": n}, t)
                    got[c] = o + n
        elif k == "outraw":
            emit({"e": "outraw", "c": e["c"]}, t)
        elif k in ("hsdone", "fin", "rst", "badtls", "junk"):
            emit({"e": k, "c": e["c"]}, t)
        elif k == "flip":
            emit({"e": "junk", "c": e["c"]}, t)
        elif k == "closenotify":
            emit({"e": "notify", "c": e["c"]}, t)
        elif k == "outclosenotify":
            emit({"e": "cn", "c": e["c"]}, t)
        elif k == "room":
            emit({"e": "room", "c": e["c"]}, t)
        elif k == "dial":
            u = e["c"]
            o = own.get(u, "") if cfg["mode"] == "c" else ports.get(e["port"], "")
            if o:
                peer[u] = o
                if o not in peer:
                    peer[o] = u
            emit({"e": "dial", "c": u, "ip": ip4(e["ip"]), "port": e["port"], "res": e["res"], "own": o,
                  "tls": bool(m.get("uptls", cfg["mode"] == "c"))}, t)
        elif k == "dialres":
            emit({"e": "dialres", "c": e["c"], "ok": e["ok"]}, t)
        elif k == "close":
            emit({"e": "close", "c": e["c"]}, t)
        elif k == "dnsq":
            emit({"e": "dnsq", "c": e["c"], "b": blist(bytes.fromhex(e["h"])), "ip": ip4(e.get("ip", "0.0.0.0")), "port": e.get("port", 0)}, t)
        elif k == "dnsr":
            emit({"e": "dnsr", "c": e["c"], "b": blist(bytes.fromhex(e["h"])), "ip": ip4(e["ip"]), "port": e["port"]}, t)
        elif k == "dopen":
            pass
        elif k == "fopen":
            if not e["inroot"] and e["path"].startswith(("/dev/", "/usr/share/zoneinfo", "/etc/localtime", "/etc/ssl/", "/usr/lib/ssl/")):
                continue            # opened by the libraries
            emit({"e": "open", "below": e["inroot"], "segs": segments(e["path"])}, t)
        elif k == "forbidden":
            emit({"e": "open", "below": False, "segs": segments(e["path"])}, t)
        elif k == "q":
            emit({"e": "q", "mem": e["mem"], "sys": e["sys"], "ssl": e["ssl"], "socks": e["socks"], "files": e["files"],
                  "blk": e["blk"], "und": sorted(set(e["und"]) | set(m.get("plainups", ())))}, t)
        elif k == "mark":
            emit({"e": "base"}, t)
        elif k in ("allocfailed", "sockfailed"):
            emit({"e": "fault"}, t)
        elif k == "stopreq":
            emit({"e": "stop"}, t)
        elif k in ("exit", "nostop", "badclose", "blocking", "crash", "hang", "end", "tick"):
            emit({"e": k}, t)
        elif k in ("bind", "unlisten", "fclose", "hsfail", "dnslate", "skip", "failalloc", "sockfail", "outfin",
                   "hide", "unhide", "actsendfail", "unlink", "garbled"):
            pass
        else:
            raise ValueError("unknown event " + k)
    return {"id": idx, "cfg": cfg, "fs": sorted(fs.values(), key=lambda f: f["path"]),
            "reqs": [{"c": c, "rs": rs} for c, rs in sorted(reqs.items())],
            "victims": sorted(m.get("victims", conn.keys())), "lift": sorted(m.get("lift", [])),
            "subjects": sorted(m.get("subjects", [])), "wild": sorted(m.get("wild", [])), "ev": out}
