"""What each property's check consists of."""
import concurrent.futures, json, os
from engine import *

# ------------------------------------------------------------------ one broker

def broker(profiles, focus, quick=(8, 120, 14), thorough=(64, 250, 20)):
    def plan(run):
        shards, n, length = thorough if run.thorough else quick
        r = []
        for i in range(shards):
            p = profiles[i % len(profiles)]
            seed = run.seed * 1000 + i
            r.append(lambda p=p, seed=seed: run_random(
                run, f"broker/{p}", "broker", "BrokerTrace.tla", "BrokerTrace.cfg", focus, f"broker-{p}-{seed}",
                seed=seed, n=n, len=length, profile=p))
        return r
    return plan


ISSUED = [{"op": "init", "pool": 0, "permits": [[100 * k + i, 3, k] for k in (1, 2) for i in range(40)]}]


def model(name, focus, quick=800):
    """The model of one broker: what it promises is checked, and every short history it allows is run on the real code."""
    def plan(run):
        t = run.thorough
        r = [] if name == "Bad" else [lambda: design(run, "BrokerMC.tla", f"Broker{name}{'Deep' if t else ''}.cfg", "mc-" + name,
                                                     workers="4" if t else "3", heap="8g" if t else "2g", timeout=3000)]

        def gen():
            sc = generate(run, "BrokerMC.tla", f"BrokerGen{name}.cfg", "gen-" + name, 24000 if t else quick)
            k = 8 if t else 2
            tasks = [lambda j=j: run_scripts(run, "broker/model-" + name.lower(), [ISSUED + s for s in sc[j::k]], "broker-ops",
                                             "BrokerTrace.tla", "BrokerTrace.cfg", focus, f"model-{name}-{j}", timeout=800)
                     for j in range(k)]
            with concurrent.futures.ThreadPoolExecutor(k if not t else 3) as ex:
                for f in [ex.submit(x) for x in tasks]:
                    f.result()
        return r + [gen]
    return plan


def race(focus):
    """Several threads: connections come, go and speak while the broker is at work on the others."""
    def plan(run):
        t = run.thorough
        return [lambda seed=run.seed * 1000 + i: run_random(run, "broker/race", "broker-race", "BrokerTrace.tla", "BrokerTrace.cfg", focus,
                                                            f"race-{seed}", timeout=800, seed=seed, n=400 if t else 120, len=8)
                for i in range(12 if t else 2)]
    return plan


def flood(focus):
    """Several threads: a few connections send a great deal at once, of very different sizes."""
    def plan(run):
        t = run.thorough
        return [lambda seed=run.seed * 1000 + i: run_random(run, "broker/flood", "broker-flood", "BrokerTrace.tla", "BrokerTrace.cfg", focus,
                                                            f"flood-{seed}", timeout=800, seed=seed, n=300 if t else 100, len=12)
                for i in range(12 if t else 2)]
    return plan


# ------------------------------------------------------------------ the versioned map

def vmap(run):
    t = run.thorough

    def gen(cfg, init, limit):
        sc = generate(run, "VMapMC.tla", cfg, "gen-" + cfg, limit)
        run_scripts(run, "vmap/" + cfg.removesuffix(".cfg"), [[init] + s for s in sc], "vmap-ops", "VMapTrace.tla",
                    "VMapTrace.cfg", [], "vmap-" + cfg)

    r = [lambda: design(run, "VMapMC.tla", "VMapMC.cfg", "mc", workers="4")]
    if t:
        r.append(lambda: design(run, "VMapMC.tla", "VMapMC3.cfg", "mc3", workers="4", timeout=1500))
    r += [
         lambda: design(run, "VMapSync.tla", "VMapSync.cfg", "sync"),
         lambda: gen("VMapGen.cfg", {"op": "init", "type": "d", "ids": [1, 2]}, None if t else 15000),
         lambda: gen("VMapGenT.cfg", {"op": "init", "type": "t", "ids": [1, 1]}, None if t else 15000)]
    for i in range(16 if t else 3):
        seed = run.seed * 1000 + i
        r.append(lambda seed=seed: run_random(run, "vmap/random", "vmap", "VMapTrace.tla", "VMapTrace.cfg", [],
                                              f"vmap-{seed}", seed=seed, n=1500 if t else 500, len=40))
    return r


# ------------------------------------------------------------------ the maps of several brokers

def mesh(focus, models, gens, profiles, deep=()):
    def plan(run):
        t = run.thorough
        r = [lambda m=m: design(run, "MeshMC.tla", m + ".cfg", m) for m in models]
        if t:
            r += [lambda m=m: design(run, "MeshMC.tla", m + ".cfg", m, workers="4", timeout=3000, heap="8g") for m in deep]

        def gen(c, n, calm, limit):
            sc = generate(run, "MeshMC.tla", c + ".cfg", "gen-" + c, limit)
            k = 4
            for j in range(k):
                run_scripts(run, "mesh/" + c, [[{"op": "init", "n": n, "calm": calm}] + s + [{"op": "settle"}] for s in sc[j::k]],
                            "mesh-ops", "MeshTrace.tla", "MeshTrace.cfg", focus, f"mesh-{c}-{j}")
        r += [lambda g=g: gen(*g[:3], None if t else g[3]) for g in gens]
        for p in profiles:
            r += randoms(run, "mesh/" + p, "mesh", "MeshTrace.tla", focus, 12 if t else 1, n=1000 if t else 250, len=60, profile=p)
        return r
    return plan


# Histories after which brokers do not agree although everything has been told, and will not before the user comes or
# goes again (known_findings.txt, DESIGN.md)
D10 = [{"op": "init", "n": 3}, {"op": "login", "b": 3, "k": 1, "ts": []}, {"op": "deliver", "i": 3, "j": 1},
       {"op": "login", "b": 2, "k": 1, "ts": []}, {"op": "deliver", "i": 2, "j": 1}, {"op": "settle"}]
D11 = [{"op": "init", "n": 3}, {"op": "login", "b": 1, "k": 1, "ts": []}, {"op": "login", "b": 2, "k": 1, "ts": []},
       {"op": "logout", "b": 1, "k": 1}, {"op": "cut", "i": 1, "j": 2}, {"op": "sync", "b": 1},
       {"op": "deliver", "i": 2, "j": 3}, {"op": "deliver", "i": 1, "j": 3}, {"op": "deliver", "i": 1, "j": 3}, {"op": "settle"}]


def disagreement(name, ops, what):
    def one(run):
        src, out = os.path.join(run.dir, name + "-in.json"), os.path.join(run.dir, name + "-out.json")
        with open(src, "w") as f:
            json.dump([ops], f)
        err, _ = harness(run, "mesh-ops", out, **{"in": src})
        if err:
            raise ToolError(name + ": " + err)
        with open(out) as f:
            last = json.load(f)[0]["ev"][-1]
        if last["op"] == "settled" and len({b["at"][0] for b in last["st"]}) > 1:
            with run.lock:
                run.findings.append(name + " " + what)
        run.log(name, "after", [b["at"][0] for b in last.get("st", [])])
    return lambda run: [lambda: one(run)]


# ------------------------------------------------------------------ the marshal

def marshal(run):
    t = run.thorough
    r = [lambda: design(run, "MarshalMC.tla", "MarshalMCdeep.cfg" if t else "MarshalMC.cfg", "mc", workers="3")]
    for i in range(48 if t else 6):
        seed = run.seed * 1000 + i
        r.append(lambda seed=seed: run_random(run, "marshal", "marshal", "MarshalTrace.tla", "MarshalTrace.cfg", [],
                                              f"marshal-{seed}", seed=seed, n=250 if t else 120, len=16))
    return r


# ------------------------------------------------------------------ the transport

def scripts(run, part, gen, mode, module, focus, limit, init=None, **opts):
    sc = generate(run, gen[0], gen[1], "gen-" + gen[1], limit)
    k = 4 if len(sc) > 4000 else 1
    for j in range(k):
        run_scripts(run, part, [(init or []) + s for s in sc[j::k]], mode, module, module.replace(".tla", ".cfg"), focus,
                    f"{part.replace('/', '-')}-{gen[1]}-{j}", **opts)


def randoms(run, part, mode, module, focus, shards, **opts):
    return [lambda seed=run.seed * 1000 + i: run_random(run, part, mode, module, module.replace(".tla", ".cfg"), focus,
                                                        f"{part.replace('/', '-')}-{seed}", seed=seed, **opts)
            for i in range(shards)]


def wire(focus):
    def plan(run):
        t = run.thorough
        r = [lambda: scripts(run, "wire/settled", ("WireGen.tla", "WireGen.cfg"), "wire-ops", "WireTrace.tla", focus,
                             60000 if t else 4000, init=[{"op": "init", "cap": 3, "bound": 1}])]
        if t:
            r.append(lambda: scripts(run, "wire/settled-deep", ("WireGen.tla", "WireGenDeep.cfg"), "wire-ops", "WireTrace.tla", focus,
                                     60000, init=[{"op": "init", "cap": 3, "bound": 1}]))
        return r + randoms(run, "wire/random", "wire", "WireTrace.tla", focus, 32 if t else 4, n=1500 if t else 500, len=24)
    return plan


def link(focus=()):
    def plan(run):
        t = run.thorough
        r = [lambda c=c: scripts(run, "link/settled", ("LinkGen.tla", c), "link-ops", "LinkTrace.tla", list(focus), None if t else 4000)
             for c in ("LinkGen.cfg", "LinkGen0.cfg")]
        return r + randoms(run, "link/random", "link", "LinkTrace.tla", list(focus), 16 if t else 3, n=1500 if t else 500, len=40)
    return plan


def gauges(run):
    t = run.thorough
    c = "MetricsDeep.cfg" if t else "MetricsMC.cfg"
    return [lambda: design(run, "MetricsMC.tla", c, "mc", workers="2"),
            lambda: scripts(run, "metrics/windows", ("MetricsMC.tla", c), "metrics-ops", "MetricsTrace.tla", [], 20000 if t else 1500),
            *randoms(run, "metrics/random", "metrics", "MetricsTrace.tla", [], 16 if t else 3, n=600 if t else 150, len=40)]


def proto(transports, n):
    def plan(run):
        t = run.thorough
        return [x for p in transports
                for x in randoms(run, "proto/" + p, "proto", "StreamTrace.tla", [], 6 if t else 1,
                                 n=(n if p != "quic" else n // 3) * (5 if t else 1), profile=p, timeout=800)]
    return plan


def dam(run):
    t = run.thorough
    return randoms(run, "proto/dam", "proto-dam", "StreamTrace.tla", [], 4 if t else 1, n=200 if t else 24, timeout=800)


def pool(run):
    t = run.thorough
    r = [lambda: design(run, "WireMC.tla", "WireMC.cfg", "mc", workers="3")]
    if t:
        r += [lambda: design(run, "WireMC.tla", "WireMC3.cfg", "mc3", workers="3"),
              lambda: design(run, "WireMC.tla", "WireLive.cfg", "live", workers="2")]
    return r


# ------------------------------------------------------------------ the encoding of messages

def codec(run):
    t = run.thorough
    c = "CodecDeep.cfg" if t else "CodecMC.cfg"
    return [lambda: design(run, "CodecMC.tla", c, "mc", workers="3"),
            lambda: scripts(run, "codec/layouts", ("CodecMC.tla", c), "codec-ops", "CodecTrace.tla", [], 60000 if t else 2000),
            *randoms(run, "codec/random", "codec", "CodecTrace.tla", [], 24 if t else 4, n=600 if t else 200, len=40)]


# ------------------------------------------------------------------ who servers prove to be

def handshake(run):
    t = run.thorough
    return [lambda: design(run, "HandshakeMC.tla", "HandshakeMC.cfg", "mc", workers="3"),
            lambda: scripts(run, "tls/certificates", ("HandshakeMC.tla", "HandshakeMC.cfg"), "tls-ops", "HandshakeTrace.tla", [], None),
            *randoms(run, "tls/random", "tls", "HandshakeTrace.tla", [], 16 if t else 3, n=400 if t else 80, len=8, timeout=800)]


# ------------------------------------------------------------------ the client

def client(run):
    t = run.thorough
    r = [lambda: design(run, "ClientMC.tla", "ClientMC.cfg", "mc", workers="3")]
    r += [lambda: design(run, "ClientMC.tla", "ClientLive.cfg", "live", workers="2")]
    r += randoms(run, "client/threads", "crowd", "CrowdTrace.tla", [], 16 if t else 3, n=1500 if t else 300, timeout=800)
    return r + randoms(run, "client", "client", "ClientTrace.tla", [], 48 if t else 6, n=400 if t else 150, len=24)


# ------------------------------------------------------------------ the whole system

def system(focus, quick=(2, 60, 20), thorough=(16, 120, 40)):
    def plan(run):
        shards, n, length = thorough if run.thorough else quick
        return randoms(run, "system", "cdn", "CdnTrace.tla", focus, shards, n=n, len=length)
    return plan


# ------------------------------------------------------------------ discovery

def disco(gens, profile, mc=False):
    def plan(run):
        t = run.thorough
        r = [lambda: design(run, "DiscoveryMC.tla", "DiscoveryMC.cfg", "mc", workers="3")] if mc else []

        def gen(c, limit):
            sc = generate(run, "DiscoveryMC.tla", f"Discovery{c}.cfg", "gen-" + c, limit)
            k = 4 if len(sc) > 1000 else 1
            for kind in ("embedded", "redis"):
                for j in range(k):
                    run_scripts(run, f"discovery/{kind}/{c}", [[{"op": "init", "kind": kind}] + s for s in sc[j::k]], "disco-ops",
                                "DiscoveryTrace.tla", "DiscoveryTrace.cfg", [], f"disco-{kind}-{c}-{j}", timeout=800)
        r += [lambda c=c, l=l: gen(c, l * (12 if t else 1)) for c, l in gens]
        return r + randoms(run, "discovery/" + profile, "disco", "DiscoveryTrace.tla", [], 24 if t else 4,
                           n=500 if t else 150, len=30, profile=profile, timeout=800)
    return plan


def both(*plans):
    return lambda run: [t for p in plans for t in p(run)]


PLAN = {
    "C01": both(model("Sessions", ["direct"]),
         broker(["direct", "users", "all", "stall", "deaf"], ["direct"]), system(["direct"])),
    "C02": both(model("Topics", ["bcast"]),
         broker(["bcast", "topics", "all", "stall", "deaf"], ["bcast"]), mesh(["interest"], ["MeshThreeTopics"], [], ["two"]),
                system(["bcast"])),
    "C03": both(broker(["order", "stall", "deaf"], ["direct", "bcast"], quick=(6, 50, 10)),
                broker(["all"], ["direct", "bcast"], quick=(2, 100, 14), thorough=(16, 250, 20)),
                flood(["direct", "bcast"]), system(["order"])),
    "C04": both(model("Topics", ["bcast"]), broker(["subs", "topics"], ["bcast"])),
    "C05": both(model("Topics", ["bcast", "tsync"]),
         broker(["topics", "subs"], ["bcast", "tsync"]),
                mesh(["interest"], ["MeshTwoTopics", "MeshThreeTopics"], [("MeshGenTwo", 2, False, 2500)], ["two", "calm"]),
                system(["bcast"])),
    "C06": both(model("Sessions", ["direct", "usync"]),
         broker(["users", "direct"], ["direct", "usync"]),
                mesh(["routes"], ["MeshTwo", "MeshCalm", "MeshCalmCut", "MeshLive"],
                     [("MeshGenTwo", 2, False, 2500), ("MeshGenCalm", 3, True, 1000)], ["two", "calm"],
                     deep=["MeshTwoDeep", "MeshCalmCutDeep"]),
                disagreement("D10", D10, "a user connects to two brokers at once; a third one that hears of the higher-identified "
                             "broker's claim first keeps the other's, the others keep the higher one's (history D10)"),
                disagreement("D11", D11, "a withdrawn claim of one broker, told late, erases another's newer claim at a third while "
                             "the link between the two is broken: it doesn't find the user (history D11)"),
                system(["direct"])),
    "C07": vmap,
    "C08": both(model("Sessions", ["closed", "direct", "bcast"]),
         broker(["session", "users", "auth"], ["closed", "direct", "bcast"]), race(["closed", "direct", "bcast", "gauges"]),
                mesh(["sessions"], ["MeshTwo", "MeshThree"], [("MeshGenThree", 3, False, 2000)], ["three", "two"],
                     deep=["MeshThreeDeep", "MeshThreeCut"]),
                system(["sessions"])),
    "C09": both(model("Deaf", ["gauges", "closed", "hb", "usync", "tsync", "direct", "bcast"]),
         broker(["cleanup", "session", "stall", "deaf"], ["gauges", "closed", "hb", "usync", "tsync", "direct", "bcast"]),
                race(["closed", "direct", "bcast", "gauges"]), system(["sessions", "loads"])),
    "C10": both(broker(["auth", "adv", "svc"], ["auth", "closed", "direct"]), disco([("GenPermits", 700)], "permits", mc=True)),
    "C11": marshal,
    "C12": broker(["auth", "dial", "adv"], ["auth", "closed", "direct", "usync", "tsync", "gauges"]),
    "C13": both(broker(["wl"], ["closed"]), disco([("GenWl", 700)], "wl")),
    "C14": both(disco([("GenLoad", 700)], "load", mc=True),
                broker(["cleanup", "session", "svc"], ["hb"], quick=(3, 100, 14), thorough=(24, 250, 20)), system(["loads"])),
    "C15": disco([("GenList", 700)], "list", mc=True),
    "C16": both(broker(["dial", "svc", "adv"], ["dials", "closed", "hb", "gauges"]), system(["mesh"])),
    "C17": both(link(), wire([]), proto(["quic", "memory", "tcp", "tls"], 180), dam),
    "C18": both(pool, wire(["pool"]), proto(["tcp", "tls", "memory"], 150),
                broker(["pool"], ["direct", "bcast", "closed"], quick=(3, 100, 14), thorough=(16, 250, 20))),
    "C19": both(model("Bad", ["all"]),
         broker(["mis", "adv"], ["all"]),
                lambda run: [lambda: run_random(run, "marshal", "marshal", "MarshalTrace.tla", "MarshalTrace.cfg", [],
                                                f"marshal-{run.seed}", seed=run.seed * 1000 + 500, n=250 if run.thorough else 120, len=16)]),
    "C20": broker(["hook"], ["all"]),
    "C22": codec,
    "C23": handshake,
    "C24": both(wire(["metrics", "pool"]), link(["metrics"]), gauges),
    "C21": both(client, system(["calls", "sessions", "bcast"])),
}


def replay(run, path):
    with open(path) as f:
        r = json.load(f)
    ops = []
    for e in r["trace"]["ev"]:
        ops.append({"op": "q"} if e["op"] == "q" and "drain" not in e else e)
    src = os.path.join(run.dir, "replay-in.json")
    out = os.path.join(run.dir, "replay-out.json")
    with open(src, "w") as f:
        json.dump([ops], f)
    mode = r.get("replay_mode", "broker-ops")
    if mode in ("proto-ops", "proto-dam-ops", "crowd-ops", "broker-race-ops", "broker-flood-ops"):
        # real time, real threads: the same seed again, as a whole
        opts = dict(zip([k[2:] for k in r["how"][2::2]], r["how"][3::2]))
        opts.pop("out")
        err, cmd = harness(run, mode.removesuffix("-ops"), out, **opts)
    else:
        err, cmd = harness(run, mode, out, **{"in": src})
    if err:
        print(err)
        return 2
    validate(run, r["part"], out, r["module"], r["cfg"], r["focus"], replay=cmd)
    return run.finish()

TECH = {}
NA = {}
NOTE = {"*": "TLC explores every state of the specification's bounded model, and decides for each recorded execution of "
             "the real code (generated schedules, real broker, idealised peers and signatures) whether the specification "
             "allows it. Assumes TLC and the harness's message translation; schedules are samples, the model's constants are small."}
