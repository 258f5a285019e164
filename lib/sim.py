"""Scenario execution: one scenario = configuration + files + script; result = list of boundary events."""
import os, json, subprocess, shutil, random
from concurrent.futures import ThreadPoolExecutor
import build

VERIF = build.VERIF
WORK = os.path.join(VERIF, ".work")
KEY = "0123456789abcdef"
KEY2 = "zyxwvutsrqponmlk"
MAGIC = bytes([0xa0, 0x01, 0xbe, 0xef])


def hx(b):
    return "hex:" + bytes(b).hex()


def auth_header(key=KEY.encode(), secret=b""):
    return MAGIC + key.ljust(16, b"\0")[:16] + secret.ljust(16, b"\0")[:16]


GREET = bytes([5, 1, 0])


def req_ip(ip, port, cmd=1, ver=5, rsv=0):
    return bytes([ver, cmd, rsv, 1]) + bytes(int(x) for x in ip.split(".")) + port.to_bytes(2, "big")


def req_dom(name, port, cmd=1):
    if isinstance(name, str):
        name = name.encode()
    return bytes([5, cmd, 0, 3, len(name)]) + name + port.to_bytes(2, "big")


def base_config(mode="s", keys=(KEY,), http=(), https=(), **kw):
    c = {"sys_daemon": 0, "sys_process": 0, "sys_log_level": 0}
    if mode in ("s", 2):
        c.update(s5_mode=2, s5_serv_port=3333)
    elif mode in ("c", 1):
        c.update(s5_mode=1, s5_local_port=1080, s5_local_serv_port=3333, s5_local_serv_ip="10.1.2.3", s5_local_auth=KEY)
    elif mode in ("m", 3):
        c.update(s5_mode=3)
    c["_keys"] = keys if isinstance(keys, str) else list(keys)
    c["http_arr"] = list(http)
    c["https_arr"] = list(https)
    c["http_index"] = "index.html"
    c.update(kw)
    return c


class Scenario:
    def __init__(self, name, config, script, files=None, variant="simh", sup=None, meta=None, symlinks=None, outside=None):
        self.name, self.config, self.script = name, config, list(script)
        self.files = files or {}
        self.variant = variant
        self.sup = sup            # list of extra args in supervisor mode
        self.meta = meta or {}
        self.symlinks = symlinks or {}
        self.outside = outside or {}

    def dump(self):
        return {"name": self.name, "config": self.config, "script": self.script, "variant": self.variant,
                "sup": self.sup, "meta": self.meta,
                "files": {k: v.hex() if isinstance(v, bytes) else v for k, v in self.files.items()},
                "outside": {k: v.hex() for k, v in self.outside.items()}}

    @staticmethod
    def load(d):
        return Scenario(d["name"], d["config"], d["script"], {k: bytes.fromhex(v) if v != "DIR" else v for k, v in d["files"].items()},
                        d["variant"], d["sup"], d["meta"], None, {k: bytes.fromhex(v) for k, v in d.get("outside", {}).items()})


def _prepare(sc, d):
    os.makedirs(os.path.join(d, "config"))
    os.makedirs(os.path.join(d, "logs"))
    os.makedirs(os.path.join(d, "web"))
    for f in ("cert.pem", "key.pem"):
        shutil.copyfile(os.path.join(VERIF, "harness", f), os.path.join(d, f))
    cfg = {k: v for k, v in sc.config.items() if not k.startswith("_")}
    cfg.setdefault("ssl_crt_path", os.path.join(d, "cert.pem"))
    cfg.setdefault("ssl_key_path", os.path.join(d, "key.pem"))
    cfg.setdefault("http_home", os.path.join(d, "web"))
    if "_keys" in sc.config:
        cfg.setdefault("s5_serv_auth_path", os.path.join(d, "keys.json"))
        keys = sc.config["_keys"]
        raw = keys if isinstance(keys, str) else json.dumps(keys, ensure_ascii=False)
        with open(os.path.join(d, "keys.json"), "wb") as f:
            f.write(raw.encode("utf-8", "surrogateescape"))
    raw = sc.config.get("_raw")
    absent = sc.config.get("_absent")
    if absent == "directory":
        os.makedirs(os.path.join(d, "config", "config.json"))
    elif not absent:
        with open(os.path.join(d, "config", "config.json"), "wb") as f:
            f.write((raw if raw is not None else json.dumps(cfg)).encode())
    for rel, data in sc.files.items():
        p = os.path.join(d, sc.config.get("_home", "web"), rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if data == "DIR":
            os.makedirs(p, exist_ok=True)
            continue
        with open(p, "wb") as f:
            f.write(data)
    for rel, data in sc.outside.items():
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
    if sc.sup is not None and sc.meta.get("pidfile"):
        with open(os.path.join(d, "logs", "pid"), "w") as f:
            f.write(sc.meta["pidfile"])
    with open(os.path.join(d, "script"), "w") as f:
        f.write("\n".join(sc.script) + "\n")


class HarnessError(Exception):
    pass


def run_one(sc, exe, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        _prepare(sc, d)
        out = os.path.join(d, "out.ndjson")
        env = {"PATH": "/usr/bin:/bin", "TZ": "CST-8",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=1:max_malloc_fill_size=0"}
        args = [exe, d, os.path.join(d, "script"), out]
        if sc.sup is not None:
            args += ["sup"] + [str(x) for x in sc.sup]
        try:
            p = subprocess.run(args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=env, timeout=120)
            rc, errtxt = p.returncode, p.stderr.decode("latin1")
        except subprocess.TimeoutExpired:
            rc, errtxt = -999, "timeout"
        ev = []
        if os.path.exists(out):
            with open(out, "rb") as f:
                for line in f:
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        ev.append({"t": ev[-1]["t"] if ev else 0, "e": "garbled"})
        t = ev[-1]["t"] if ev else 0
        if any(e["e"] == "simerror" for e in ev) or rc == 3:
            raise HarnessError("%s: %s" % (sc.name, errtxt[-500:]))
        if rc == -999:
            ev.append({"t": t, "e": "hang", "kind": "real"})
        elif rc == 77:
            import re
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", errtxt)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", errtxt)
            ev.append({"t": t, "e": "crash", "kind": m.group(1) if m else "asan", "where": fr[:6]})
        elif rc not in (0, 42, 43):
            ev.append({"t": t, "e": "crash", "kind": "exit%d" % rc})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(scs, jobs=8):
    """Run scenarios in parallel; returns list of event lists (same order)."""
    exes = build.build(*sorted({s.variant for s in scs})) if scs else {}
    base = os.path.join(WORK, "%d_%d" % (os.getpid(), random.SystemRandom().randrange(1 << 30)))
    os.makedirs(base, exist_ok=True)
    try:
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(lambda x: run_one(x[1], exes[x[1].variant], os.path.join(base, "s%d" % x[0])), enumerate(scs)))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def pat_byte(name, off):
    return _pat(name, off // 8)[off % 8]


_cache = {}
M64 = (1 << 64) - 1


def _pat(name, blk):
    k = (name, blk)
    v = _cache.get(k)
    if v is None:
        h = 1469598103934665603
        for ch in name.encode():
            h = ((h ^ ch) * 1099511628211) & M64
        h ^= (blk * 0x9E3779B97F4A7C15) & M64
        h ^= h >> 29
        h = (h * 0xBF58476D1CE4E5B9) & M64
        h ^= h >> 32
        h = (h * 0x94D049BB133111EB) & M64
        h ^= h >> 29
        v = h.to_bytes(8, "little")
        _cache[k] = v
        if len(_cache) > 2000000:
            _cache.clear()
    return v


def pattern(name, off, n):
    b0, b1 = off // 8, (off + n + 7) // 8
    s = b"".join(_pat(name, b) for b in range(b0, b1))
    return s[off - 8 * b0: off - 8 * b0 + n]
