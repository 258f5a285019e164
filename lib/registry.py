"""Which models and which generated executions decide each property."""
from gen_parts import CFG
from gen_model import cfg as session, refines
from gen_socks import cache_cfg, reply_cfg
from gen_web import path_cfg, web_cfg, file_cfg, calendar_cfg
from gen_life import event_cfg, config_cfg
from gen_config import settings_cfg

Q4 = {"quick": 10, "thorough": 1000}
TRACE = "TLA+/TLC: recorded executions of the real worker in a simulated system validated against the specification Worker.tla"
PART = ("TLA+/TLC: implementation-shaped model checked exhaustively in small scope, its state-graph paths and random operation "
        "sequences replayed into the real code, results validated against the abstract specification")
MASTER = ("TLA+/TLC: design model of master and workers; executions of the real master in a simulated system validated against "
          "the specification Master.tla")


LONG = {"quick": 45, "thorough": 600}


def worker(*gens, **kw):
    d = dict(gens=[("worker", g) for g in gens], rounds=Q4, kind="worker", technique=TRACE)
    d.update(kw)
    return d


def part(gen, models, **kw):
    d = dict(gens=[("part", "gen_parts." + gen)], rounds={"quick": 3, "thorough": 1000}, kind="part", technique=PART, models=models)
    d.update(kw)
    return d


def model(module, quick, thorough=None, **kw):
    """only: the tier it is left to"""
    return dict(module=module, cfg={"quick": quick, "thorough": thorough or quick}, **kw)


def bad(module, cfg, flaw):
    """a model with a flaw its invariants have to show"""
    return dict(model(module, cfg, name=module + "/" + flaw), flawed=True)


MASTER_CFG = """SPECIFICATION Spec
CONSTANTS N = %d
 Deaths = %d
 Reloads = %d
 Stops = 1
 Fails = %d
 Flaw = "%s"
INVARIANTS Faithful Table
%sCHECK_DEADLOCK FALSE
"""


def master_cfg(n, deaths, reloads, fails=1, flaw="none"):
    return MASTER_CFG % (n, deaths, reloads, fails, flaw, "PROPERTIES StopEnds Replaced Restored\n" if flaw == "none" else "")


def master(gen, flaws):
    return dict(gens=[("master", gen)], rounds={"quick": 8, "thorough": 1000}, kind="master", technique=MASTER,
                models=[model("MasterMC", master_cfg(2, 1, 1), master_cfg(3, 1, 1))] + [bad("MasterMC", master_cfg(2, 1, 1, flaw=f), f) for f in flaws])


# the relay: all states of a small instance, and that it always gets on
TUNNEL_CFG = """SPECIFICATION Spec
CONSTANTS Cap=%d MaxSend=%d MaxRoom=%d Rekeys=%d EndAfter=0
INVARIANTS Prefix Flush NoStall
"""
TUNNEL_ALL = TUNNEL_CFG + "VIEW View\nCHECK_DEADLOCK FALSE\n"
TUNNEL_LIVE = TUNNEL_CFG + "PROPERTIES Arrives EndsClose\nCHECK_DEADLOCK FALSE\n"
TUNNEL = [model("TunnelMC", TUNNEL_ALL % (2, 2, 2, 1), TUNNEL_ALL % (2, 4, 2, 1)), ]
LIVE = [model("TunnelMC", TUNNEL_LIVE % (2, 2, 1, 0), TUNNEL_LIVE % (2, 3, 2, 1), name="TunnelMC/live")]

# sessions from connecting to closing
SESSIONS = [model("SessionMC", session(m, 2, True), session(m, 2 if m == "c" else 3, True), name="SessionMC/" + m) for m in "smc"]
# the session model contradicts nothing of the specification, and each of these flaws contradicts the property
REFINES = {m: model("WorkerMC", refines(m), refines(m, 20000, 3), name="WorkerMC/" + m) for m in "smc"}
FLAWS = {
    "P01": ["s swap", "s again", "s skip"], "P02": ["s leg", "s cut"], "P03": ["s stall"], "P04": ["s door", "s peek"],
    "P05": ["s port", "s addr", "s twice", "s reply"], "P06": ["s tell", "s cheer"], "P07": ["s addr", "s guess", "s vain", "s ask"],
    "P09": ["s mute"], "P10": ["s mute", "s short"], "P13": ["s slow", "s hasty", "m slow", "c hasty"], "P14": ["s leg", "c leg"],
    "P16": ["s swap"], "P19": ["c header", "c skip"], "P20": ["m mute", "m reply"],
    "P28": ["s stale", "s promise", "s kind"],
}


def flawed(pid):
    return [dict(model("WorkerMC", refines(x.split()[0], flaw=x.split()[1], want=pid), name="WorkerMC/%s" % x.replace(" ", "/")), flawed=True)
            for x in FLAWS.get(pid, ())]


# sessions in trouble
LATER = {"s": {}, "c": {}, "m": {"only": "thorough"}}


def troubles(what, flaws, pid):
    return ([model("SessionMC", session(m, 2, True, trouble=what), session(m, 2 if m == "c" else 3, True, trouble=what), name="SessionMC/%s/%s" % (m, what), **LATER[m]) for m in "smc"] +
            [model("WorkerMC", refines(m, trouble=what), refines(m, 20000, 3, trouble=what), name="WorkerMC/%s/%s" % (m, what), **LATER[m]) for m in "smc"] +
            [dict(model("WorkerMC", refines(f.split()[0], flaw=f.split()[1], want=pid, trouble=what), name="WorkerMC/%s/%s" % (f.replace(" ", "/"), what)), flawed=True)
             for f in flaws])


# a web connection
WEB = [model("WebMC", web_cfg(2, "all"), web_cfg(3, "all")), model("WebMC", web_cfg(1, "live"), web_cfg(2, "live"), name="WebMC/live")]


# a file that changes while it is sent
FILES = [model("FileMC", file_cfg(4, 2, 2, True), file_cfg(7, 3, 4, True))] + [bad("FileMC", file_cfg(4, 2, 2, True, f), f) for f in ("over", "short", "skip")]


def webflaw(f):
    return bad("WebMC", web_cfg(2, "all", f), f)


CHECKS = {
    "P01": worker("gen_tunnel.P01", models=TUNNEL),
    "P02": worker("gen_tunnel.P02", "gen_model.P02", "gen_life.P02", models=TUNNEL + LIVE),
    "P03": worker("gen_tunnel.P03", models=TUNNEL + LIVE),
    "P04": worker("gen_socks.P04", models=[model("KeySearchMC", CFG["ac"](2, 3, 3, 5), CFG["ac"](3, 2, 4, 6))]),
    "P05": worker("gen_socks.P05", "gen_model.P05", models=SESSIONS[:1] + [REFINES["s"]]),
    "P06": worker("gen_socks.P06", "gen_model.P06", models=[REFINES["s"]]),
    "P07": worker("gen_socks.P07", models=[model("DnsMC", reply_cfg(2, 3, True), reply_cfg(3, 4, True))] +
                  [bad("DnsMC", reply_cfg(2, 3, True, f), f) for f in ("edge", "type", "rest", "label")]),
    "P08": worker("gen_socks.P08", models=[model("CacheMC", cache_cfg(3, 2, 2, True), cache_cfg(3, 2, 3, True))]),
    "P09": worker("gen_web.P09", models=[WEB[0], webflaw("slide"), webflaw("early")]),
    "P10": worker("gen_web.P10", models=WEB + [webflaw("greedy"), webflaw("drop"), webflaw("hasty")] + FILES, budget=LONG),
    "P11": worker("gen_web.P11", models=[model("PathMC", path_cfg(4, True), path_cfg(5, True)), bad("PathMC", path_cfg(4, True, "start"), "start"), bad("PathMC", path_cfg(4, True, "decode"), "decode")]),
    "P12": part("timer", [model("TimerMC", CFG["timer"](4, 3), CFG["timer"](5, 3))], instead=([("worker", "gen_life.P13")], ["P13"])),
    "P13": worker("gen_life.P13", "gen_model.P13", models=SESSIONS),
    "P14": worker("gen_life.P14", "gen_model.P14", models=SESSIONS + [REFINES["c"]], budget=LONG),
    "P15": part("pool", [model("PoolMC", CFG["pool"](2, 5), CFG["pool"](3, 6))], instead=([("worker", "gen_life.P14")], ["P14"])),
    "P16": worker("gen_life.P16", models=[model("EventMC", event_cfg(2, 1, 1, True), event_cfg(2, 2, 1, True)), bad("EventMC", event_cfg(2, 1, 1, True, "write"), "write"), bad("EventMC", event_cfg(2, 1, 1, True, "peer"), "peer")]),
    "P17": master("gen_master.P17", ["leave", "forget", "early", "wrong", "again"]),
    "P18": master("gen_master.P18", ["deaf"]),
    "P19": worker("gen_local.P19", models=[REFINES["c"]]),
    "P20": worker("gen_web.P20", models=[REFINES["m"]]),
    "P21": worker("gen_life.P21", "gen_model.P21", models=troubles("junk", ["s crash"], "P21"), budget=LONG),
    "P22": worker("gen_life.P22", models=[model("ConfigMC", config_cfg())] + [bad("ConfigMC", config_cfg(f), f) for f in ("cap", "clear", "role", "count")]),
    "P23": worker("gen_life.P23", "gen_model.P23", models=troubles("short", ["s leg", "c leg", "s crash"], "P23"), budget=LONG),
    "P24": part("map_", [model("MapMC", CFG["map"](4, 2), CFG["map"](5, 2))], instead=([("worker", "gen_socks.P08")], ["P08"])),
    "P25": part("ring", [model("RingMC", CFG["ring"](6), CFG["ring"](9))]),
    "P26": part("tree", [model("TreeMC", CFG["tree"](6), CFG["tree"](7))]),
    "P29": part("seq", [model("QueueMC", CFG["queue"](4), CFG["queue"](5)), model("ChainMC", CFG["chain"]((2, 2), 3), CFG["chain"]((2, 1, 2), 3))]
                + [bad("QueueMC", CFG["queue"](3, f), f) for f in ("head", "tail", "gone")] + [bad("ChainMC", CFG["chain"]((2, 2), 2, f), f) for f in ("clip", "start", "slide")],
                instead=([("worker", "gen_web.P10")], ["P10"])),
    "P30": part("log", [model("LogMC", CFG["log"](4), CFG["log"](5))] + [bad("LogMC", CFG["log"](3, f), f) for f in ("seek", "pieces", "clear", "below", "above")],
                instead=([("worker", "gen_config.P27")], ["P27"])),
    "P27": dict(worker(models=[model("SettingsMC", settings_cfg(), settings_cfg(4))]
                       + [bad("SettingsMC", settings_cfg(flaw=f), f) for f in ("always", "nested", "piece", "tail")]), gens=[("worker", "gen_config.P27"), ("master", "gen_config.P27m")]),
    "P28": worker("gen_web.P28", models=[model("CalendarMC", calendar_cfg(1970, 2110, True))] + [bad("CalendarMC", calendar_cfg(1970, 2110, True, f), f) for f in ("century", "short", "week")]),
}
CHECKS["P04"]["gens"].append(("part", "gen_parts.keys"))
for pid in CHECKS:
    CHECKS[pid]["models"] = CHECKS[pid].get("models", []) + flawed(pid)

# executables the checks use
VARIANTS = ["simh", "simp", "drv_ring", "drv_map", "drv_tree", "drv_pool", "drv_timer", "drv_ac", "drv_seq", "drv_log"]
