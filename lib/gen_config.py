"""Configuration files: the same settings written in many ways, files that are none."""
import os
from scen import *
import sim, build, gen_master, graph
from sim import Scenario

SETTINGS = """SPECIFICATION Spec
CONSTANTS Most = %d
 Piece = %d
 Flaw = "%s"
%s
CHECK_DEADLOCK FALSE
"""


STARTS = SETTINGS.replace("SPECIFICATION Spec", "INIT Init\nNEXT Stay") % (3, 4, "none", "")


def settings_cfg(most=3, piece=4, flaw="none"):
    return SETTINGS % (most, piece, flaw, "INVARIANTS Started Ended\nPROPERTIES Decided")


PRE = "/usr/local/s5/"
OWN = ["sys_daemon", "sys_process", "sys_log_level", "ssl_crt_path", "ssl_key_path", "s5_mode", "s5_serv_port", "s5_serv_auth_path", "s5_serv_gw",
       "s5_local_port", "s5_local_serv_port", "s5_local_serv_ip", "s5_local_auth", "http_arr", "https_arr", "http_home", "http_index"]


def string(rng, s):
    """a JSON string, some of its characters written as escapes"""
    p = rng.choice([0, 0, .1, 1])
    out = ""
    for ch in s:
        if rng.random() < p:
            out += "\\/" if ch == "/" and rng.random() < .5 else "\\u%04x" % ord(ch) if rng.random() < .5 else "\\u%04X" % ord(ch)
        else:
            out += ch
    return '"%s"' % out


def number(rng, n):
    k = rng.random()
    if k < .7:
        return str(n)
    if k < .8:
        return "%d.0" % n
    if k < .9:
        return "%de0" % n
    return "%.9fe3" % (n / 1000)


def value(rng, v, gap):
    if isinstance(v, str):
        return string(rng, v)
    if isinstance(v, list):
        return "[" + gap() + ("," + gap()).join(value(rng, x, gap) + gap() for x in v) + "]"
    return number(rng, v)


def unknown(rng, i):
    """an entry the program does not know"""
    name = rng.choice(["comment", "http_ar", "http_arr2", "s5_mod", "sys", "", "x" * 300, "s5_serv_port_old", "ssl"]) + "#%d" % i
    v = rng.choice(['"%s"' % ("y" * rng.choice([0, 3, 500])), "17", "-1.5e-3", "true", "false", "null", "[]", "{}", '[1, [2, {"s5_mode": 1}], "]"]',
                    '{"s5_mode": 1, "http_arr": [1, 2, 3], "http_home": "/nowhere", "sys_process": 9, "s5_serv_gw": "9.9.9.9"}',
                    '"s5_mode: 1, \\"http_home\\": \\"/nowhere\\""', '"}"', '"\\\\"', '"\u00e4\u4e2d"'])
    return '"%s": %s' % (name, v)


def text(rng, settings, pad=None):
    ws = rng.choice(["", " ", " ", "\n", "\r\n\t", "\n    "])

    def gap():
        return ws if rng.random() < .7 else ""
    es = [string(rng, k) + gap() + ":" + gap() + value(rng, v, gap) for k, v in settings.items()]
    es += [unknown(rng, i) for i in range(rng.choice([0, 0, 1, 3]))]
    if rng.random() < .8:
        rng.shuffle(es)
    out = gap() + "{" + gap() + ("," + gap()).join(e + gap() for e in es) + "}" + gap()
    if pad:
        # far more of it than any buffer a program might set aside
        k = rng.randrange(len(es) + 1)
        es.insert(k, '"filler":"%s"' % ("z" * pad) if rng.random() < .5 else " " * pad + '"filler":0')
        out = "{" + ",".join(es) + "}"
    return out


def deep(rng, first, n, last=""):
    """a path of n characters (as written in the file) below `first'"""
    p = first
    while len(PRE + p) + (len(last) + 1 if last else 0) < n:
        room = n - len(PRE + p) - (len(last) + 1 if last else 0)
        if room == 1:
            p += "x"
        else:
            p += "/" + "abcdefghij-_~"[rng.randrange(13)] * min(room - 1, rng.choice([1, 7, 40, 100]))
    return p + ("/" + last if last else "")


LENS = [0, 0, 40, 64, 100, 127, 128, 129, 200, 250, 254, 255, 256]


def settings(rng, i, mode):
    """a service whose every setting differs from the ones usually there"""
    kw = {}
    ports = rng.sample(range(1025, 65536), 8)
    nh, ns = rng.randrange(0, 4), rng.randrange(1 if mode == "m" else 0, 4)
    b = B("settings%d%s" % (i, mode), mode=mode, rng=rng, http=ports[:nh], https=ports[nh:nh + ns])
    c = b.config
    c["http_index"] = rng.choice(["index.html", "home", "start.htm", "i" * 60 + ".html", "d/e.txt"])
    home = deep(rng, "web", rng.choice(LENS))
    c["_home"] = home
    c["http_home"] = PRE + home + ("/" if len(PRE + home) < 256 and rng.random() < .2 else "")
    if mode == "s":
        c["s5_serv_port"] = ports[7]
    if mode == "c":
        c.update(s5_local_port=ports[7], s5_local_serv_port=rng.choice([1, 443, 65535, rng.randrange(1, 65536)]),
                 s5_local_serv_ip=rng.choice(["10.1.2.3", "1.2.3.4", "255.254.253.252", "100.100.100.100", "192.168.0.1"]),
                 s5_local_auth="".join(rng.choice("abcdefghijklmnop0123456789!?") for _ in range(rng.choice([1, 8, 15, 16]))))
    gw = rng.choice([None, "8.8.4.4", "1.1.1.1", "192.168.100.200", "255.255.255.254"])
    if gw:
        c["s5_serv_gw"] = gw
    # where certificate and keys are
    where = {}
    for k, f in (("ssl_crt_path", "cert.pem"), ("ssl_key_path", "key.pem")):
        where[k] = deep(rng, "own/" + k, rng.choice(LENS), f)
        with open(os.path.join(build.VERIF, "harness", f), "rb") as fh:
            b.outside[where[k]] = fh.read()
    keys = ["".join(rng.choice("abcdefghijklmnop0123456789") for _ in range(16)) for _ in range(rng.choice([1, 2, 5]))]
    where["s5_serv_auth_path"] = deep(rng, "own/keys", rng.choice(LENS), "auth.json")
    b.outside[where["s5_serv_auth_path"]] = ("[" + ",".join('"%s"' % k for k in keys) + "]").encode()
    c["_keys"] = keys
    # what a program would serve that took no notice
    for rel in ("index.html", "f.html", "d/e.txt"):
        b.outside["web/" + rel] = b"decoy " * 20
    for k, v in where.items():
        c[k] = PRE + v
    if home == "web":
        for rel in ("index.html", "f.html", "d/e.txt"):
            b.outside.pop("web/" + rel)
    b.file(c["http_index"], rng.choice([1, 90, 5000]))
    b.file("f.html", rng.choice([1, 90, 5000]))
    b.file("d/g.json", 20)
    said = {k: v for k, v in c.items() if not k.startswith("_")}
    for k in ("sys_daemon", "sys_log_level", "sys_process", "http_arr", "https_arr"):
        if not said[k] and k != "sys_log_level" and rng.random() < .4:
            del said[k]
    c["_raw"] = text(rng, said, rng.choice([None, None, None, 3000, 4096, 5000, 70000, 300000]) if rng.random() < .5 else None)
    # everything is used once
    j = 0
    todo = [(p, "http") for p in c["http_arr"]] + [(p, "shared" if mode == "m" else "https") for p in c["https_arr"]]
    if mode == "s":
        todo.append((c["s5_serv_port"], "tun"))
    if mode == "m":
        todo += [(p, "stun") for p in c["https_arr"][:1]]
    if mode == "c":
        todo.append((c["s5_local_port"], "local"))
        b("uptls 1")
    rng.shuffle(todo)
    for p, svc in todo:
        k = "C%d" % j
        j += 1
        if svc == "local":
            b("conn %s %d plain" % (k, p), "send %s pat:77" % k)
            b.nup += 1
            b("send U%d pat:50" % b.nup)
            continue
        b("conn %s %d %s" % (k, p, "plain" if svc == "http" else "tls"))
        if svc in ("tun", "stun"):
            b.meta["kinds"][k] = "tun"
            name = "n%d.example" % j
            for m in (auth_header(rng.choice(keys).encode()), GREET, req_dom(name, b.newport(k))):
                b("send %s %s" % (k, hx(m)))
            b("dnsreply D1 %s" % dns_reply(name, [a_rr("6.6.6.%d" % j)]).hex(), "send %s pat:30" % k)
        else:
            b.meta["kinds"][k] = "web"
            raw = b.request(k, rng.choice(["/", "/f.html", "/d/g.json"]), headers=[("Host", "some.host.example")], keep=True)
            raw += b.request(k, rng.choice(["/", "/f.html", "/d/g.json"]), headers=[("Host", "some.host.example")])
            b("send %s %s" % (k, hx(raw)))
    b("conn N %d plain" % rng.choice([x for x in (80, 443, 1080, 3333, 8080) if x not in [p for p, _ in todo]]))
    return b.done(lift=["P27"])


MASTER = {"ssl_crt_path": "cert.pem", "ssl_key_path": "key.pem", "s5_serv_auth_path": "keys.json", "http_home": "web"}


def said_by(c):
    return dict({k: v for k, v in c.items() if not k.startswith("_")}, **{k: PRE + f for k, f in MASTER.items()})


def workers(rng, i):
    """how many workers, and whether it runs in the background"""
    n = rng.choice([1, 2, 3, 4, 7, 12])
    daemon = rng.random() < .3
    c = gen_master.cfg(n, sys_daemon=int(daemon))
    said = said_by(c)
    c["_raw"] = text(rng, said, rng.choice([None, None, 4096, 70000]))
    s = rng.choice([["nop"], ["dieall", "nop"], ["die 1", "nop", "sig STOP", "dieall", "nop"]])
    m = {"role": "master", "me": 5001, "daemon": True} if daemon else {"role": "master", "me": 4242}
    m["lift"] = ["P27"]
    return Scenario("workers%d" % i, c, s, sup=[1] if daemon else [], meta=m)


def broken(rng, good):
    """no configuration at all"""
    k = rng.randrange(9)
    if k == 0:
        return ""
    if k == 1:
        return rng.choice([" ", "\n\n", "\0", "hello", "s5_mode=2\n", "<config/>", "\x7fELF\1\1", "}{", "{"])
    if k in (2, 3, 4):
        return good[:rng.randrange(1, good.rindex("}"))]
    q = [i for i, ch in enumerate(good) if ch == '"' and good[i - 1] != "\\"]
    if k == 5:
        # cut short inside a string
        i = rng.choice(q[::2])
        return good[:i + 1]
    if k == 6:
        return good.replace(":", "=")
    if k == 7:
        return good.replace(",", ";")
    return good.replace('"', "'")


def useless(rng, i):
    n = rng.choice([0, 0, 1, 2])
    c = gen_master.cfg(n)
    said = said_by(c)
    good = sim.json.dumps(said)
    k = rng.random()
    if k < .12:
        c["_absent"] = "nothing"
    elif k < .2:
        c["_absent"] = "directory"
    else:
        c["_raw"] = broken(rng, good)
    m = {"role": "none"}
    if rng.random() < .3:
        m["pidfile"] = rng.choice(["77", "4242", "31000"])
    return Scenario("useless%d" % i, c, ["adv 6000", "nop"] if n == 0 else ["nop"], sup=[], meta=m)


def replayed(rng, i, words):
    """a file of the model: the setting is the number of workers"""
    verdict, words = words[0], words[1:]
    c = gen_master.cfg(int(verdict) if verdict != "none" else rng.choice([0, 1]))
    said = said_by(c)
    said.pop("sys_process")
    gap = rng.choice([" ", "\n", "\r\n\t"])
    out, depth = [], 0
    for w in words:
        depth += (w == "{") - (w == "}")
        if w == "base":
            # the same names further inside are somebody else's
            d = said if depth <= 1 else dict(said, s5_mode=1, http_arr=[1, 2], http_home="/nowhere", s5_serv_port=9)
            out.append(",".join("%s:%s" % (sim.json.dumps(k), sim.json.dumps(v)) for k, v in rng.sample(sorted(d.items()), len(d))))
        else:
            out.append({"comma": ",", "k": '"sys_process"', "o": '"other"'}.get(w, w))
    c["_raw"] = gap.join(out)
    m = {"role": "none"} if verdict == "none" else {"role": "master", "me": 4242, "lift": ["P27"]}
    return Scenario("file%d%s" % (i, verdict), c, ["nop"], sup=[], meta=m)


def files(rng, num):
    every = graph.starts("SettingsMC", STARTS)
    good, bad = [w for w in every if w[0] != "none"], [w for w in every if w[0] == "none"]
    return [replayed(rng, i, w) for i, w in enumerate(rng.sample(good, min(len(good), num // 4)) + rng.sample(bad, num - num // 4))]


def P27(rng, tier, rnd=0):
    return [settings(rng, i, "smc"[i % 3]) for i in range(45)]


def P27m(rng, tier, rnd=0):
    return [workers(rng, i) for i in range(15)] + [useless(rng, i) for i in range(40)] + files(rng, 120)
