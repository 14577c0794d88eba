"""Runs TLC and the harness; keeps the counts for the evidence file."""
import collections, concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PUSHCDN_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(BUILD, "target", "debug", "harness")
JOBS = 8
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class ToolError(Exception):
    pass


class NoEnd(ToolError):
    pass


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.detail = collections.OrderedDict()
        self.samples = []
        self.rejections = []          # (part, replay dict)
        self.findings = []
        self.dir = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, part, **kw):
        with self.lock:
            d = self.detail.setdefault(part, collections.OrderedDict())
            for k, v in kw.items():
                if isinstance(v, dict):
                    e = d.setdefault(k, {})
                    for kk, vv in v.items():
                        e[kk] = e.get(kk, 0) + vv
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    d[k] = d.get(k, 0) + v
                else:
                    d[k] = v

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    def evidence(self, violations):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:4], "parts": self.detail,
        }
        e = {
            "property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
            "level": "model_checking", "coverage": cov,
            "assumptions": ["TLC, the TLA+ CommunityModules and the Rust toolchain",
                            "the harness's translation between wire messages and the specification's (harness/src/common.rs)"],
            "wall_s": round(time.time() - self.t0, 1), "violations": violations,
        }
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(e, f)

    def finish(self):
        for f in self.findings:
            print(f"KNOWN-FINDING: property={self.pid} {f}")
        if self.rejections:
            part, rep = self.rejections[0]
            return self.violation(Violation(f"{len(self.rejections)} execution(s) rejected, first by {part}", rep))
        self.evidence(0)
        self.log(f"{self.pid}: held; {self.states} states, {self.traces} executions validated")
        return 0

    def violation(self, v):
        path = os.path.join(VERIF, "evidence", f"replay-{self.pid}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": v.what, **v.replay}, f)
        self.evidence(max(1, len(self.rejections)))
        print(v.what)
        if v.replay.get("explain"):
            print(v.replay["explain"][:3000])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        return 1


def env_build():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             RUSTFLAGS="--cfg pushcdn_verif", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             PUSHCDN_WS=os.path.join(BUILD, "ws"), PUSHCDN_REPO=REPO)
    return e


def build(run):
    """The harness, from /repo's working tree."""
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "mkws.py")], env=env_build(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("mkws: " + r.stdout[-3000:])
    r = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env_build(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("build: " + r.stdout[-6000:])
    run.log("built")


def harness(run, mode, out, timeout=300, **opts):
    cmd = [HARNESS, mode, "--out", out]
    for k, v in opts.items():
        cmd += [f"--{k}", str(v)]
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        err = None if r.returncode == 0 else f"harness exited with {r.returncode}: {r.stdout[-1500:]}"
    except subprocess.TimeoutExpired:
        err = f"no end after {timeout} s"
    return err, cmd


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(run, module, cfg, tag, env=None, args=(), timeout=600, heap="2g", workers="1", dfs=False):
    """Returns (output, generated, distinct, clean)."""
    md = os.path.join(run.dir, "tlc-" + tag)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", *(["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []),
           "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m",
           "-cp", JAR, "tlc2.TLC", "-workers", workers, "-metadir", md, "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoEnd(f"TLC {tag}: no end after {timeout:.0f} s")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = None
    for m in STATS.finditer(r.stdout):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return r.stdout, gen, dist, r.returncode == 0


def design(run, module, cfg, tag, **kw):
    """Exhaustive check of a model; a failure is a fault of the specification, not of the code."""
    out, gen, dist, ok = tlc(run, module, cfg, tag, workers=kw.pop("workers", "2"), **kw)
    if not ok or "No error has been found" not in out:
        raise ToolError(f"model {cfg}: " + out[-4000:])
    with run.lock:
        run.states += dist
        run.transitions += gen
    run.note("model " + cfg.removesuffix(".cfg"), states=dist, transitions=gen, exhaustive=True)
    run.log(f"model {cfg}: {dist} states, {gen} transitions")


def generate(run, module, cfg, tag, limit=None, env=None, args=(), timeout=800):
    """Scripts from the model: TLC prints the history with each transition it explores (with a VIEW: one shortest
    script for every transition of the bounded model). Scripts that begin another are left out."""
    out, gen, dist, ok = tlc(run, module, cfg, tag, env={**(env or {}), "GEN": "1"}, args=args, timeout=timeout, heap="3g")
    if not ok:
        raise ToolError(f"generation {cfg}: " + out[-3000:])
    scripts = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"SCRIPT ')]
    with run.lock:
        run.states += dist
        run.transitions += gen
    keys = sorted({tuple(json.dumps(o, sort_keys=True) for o in s) for s in scripts})
    keep = [k for k, n in zip(keys, keys[1:] + [()]) if n[:len(k)] != k]
    total = len(keep)
    if limit and total > limit:
        keep = random.Random(run.seed).sample(keep, limit)
    run.note("generated by " + cfg.removesuffix(".cfg"), transitions=len(keys), scripts=total, used=len(keep), states=dist)
    run.log(f"generated from {cfg}: {len(keys)} transitions, {total} scripts, {len(keep)} used")
    return [[json.loads(o) for o in k] for k in keep]


def op_counts(traces, key="op"):
    c = collections.Counter()
    for t in traces:
        for e in t["ev"]:
            c[e[key]] += 1
            if e.get("op") == "send" and "m" in e:
                c["send:" + e["m"]["t"]] += 1
    return dict(c)


def run_scripts(run, part, scripts, mode, module, cfg, focus, tag, **opts):
    """Runs scripts on the real code and validates what they did."""
    src, out = os.path.join(run.dir, tag + "-in.json"), os.path.join(run.dir, tag + "-out.json")
    with open(src, "w") as f:
        json.dump(scripts, f)
    err, cmd = harness(run, mode, out, **{"in": src, **opts})
    if err:
        with run.lock:
            run.rejections.append((part, {"part": part, "how": cmd, "explain": err}))
        return
    validate(run, part, out, module, cfg, focus, replay=cmd, mode=mode)


def run_random(run, part, mode, module, cfg, focus, tag, timeout=300, **opts):
    """Runs the harness's random driver and validates what it did."""
    out = os.path.join(run.dir, tag + ".json")
    err, cmd = harness(run, mode, out, timeout=timeout, **opts)
    if err:
        with run.lock:
            run.rejections.append((part, {"part": part, "how": cmd, "explain": "the code under test never came to rest: " + err}))
        return
    validate(run, part, out, module, cfg, focus, replay=cmd, mode=mode + "-ops")


def validate(run, part, tracefile, module, cfg, focus, extra_env=None, replay=None, timeout=None, mode="broker-ops"):
    """TLC decides whether every trace of the file is a behaviour of the specification. Should it come to no end (many
    calls outstanding at once, after a change to the code), the traces are decided one by one: a rejection is a
    rejection whatever the others are."""
    with open(tracefile) as f:
        traces = json.load(f)
    timeout = timeout or (900 if run.thorough else 280)
    args = (module, cfg, focus, extra_env, replay, mode)
    try:
        return validate_file(run, part, tracefile, traces, timeout, *args)
    except NoEnd:
        if len(traces) == 1:
            raise
        open_, bad = [], 0
        end = time.time() + timeout
        for i, t in enumerate(traces):
            one = f"{tracefile}.{i}.json"
            with open(one, "w") as f:
                json.dump([t], f)
            try:
                bad += validate_file(run, part, one, [t], 15, *args)
            except NoEnd:
                open_.append(i)
            os.remove(one)
            if bad or time.time() > end or run.rejections:
                return bad
        if open_:
            raise NoEnd(f"{tracefile}: executions {open_} undecided")
        return 0


def validate_file(run, part, tracefile, traces, timeout, module, cfg, focus, extra_env, replay, mode):
    ff = tracefile + ".focus"
    with open(ff, "w") as f:
        json.dump(focus, f)
    env = {"TRACES": tracefile, "FOCUS": ff, "DEBUG": "0", **(extra_env or {})}
    out, gen, dist, ok = tlc(run, module, cfg, os.path.basename(tracefile), env=env, timeout=timeout, dfs=True)
    rej = {int(a): int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)}
    broken_inv = re.search(r"Invariant (\w+) is violated", out)
    if broken_inv or ("No error has been found" not in out and not rej):
        raise ToolError(f"trace validation {tracefile}: " + out[-4000:])
    with run.lock:
        run.states += dist
        run.transitions += gen
        run.traces += len(traces) - len(rej)
        if len(run.samples) < 4 and traces:
            t = min(traces, key=lambda t: abs(len(t["ev"]) - 30))
            run.samples.append({"part": part, "execution": t["ev"][:40]})
    run.note(part, executions=len(traces), events=sum(len(t["ev"]) for t in traces), states=dist, transitions=gen,
             by_event=op_counts(traces), focus=",".join(focus))
    for t, i in sorted(rej.items()):
        one = tracefile + ".rejected.json"
        with open(one, "w") as f:
            json.dump([traces[t - 1]], f)
        exp = ""
        if len(run.rejections) < 3:
            try:
                o, *_ = tlc(run, module, cfg, "explain-" + os.path.basename(tracefile),
                            env={**env, "TRACES": one, "DEBUG": "1"}, timeout=40)
            except NoEnd:
                o = ""
            k = o.find('<< "MISMATCH"') if '<< "MISMATCH"' in o else o.find('<<"MISMATCH"')
            exp = o[k:k + 6000] if k >= 0 else ""
        ev = traces[t - 1]["ev"]
        with run.lock:
            run.rejections.append((part, {
                "part": part, "module": module, "cfg": cfg, "focus": focus, "at": i, "replay_mode": mode,
                "event": ev[i - 1] if 0 < i <= len(ev) else None, "trace": traces[t - 1], "how": replay, "explain": exp}))
    return len(rej)


def execute(run, plan):
    """plan(run) -> list of thunks; they run in parallel, until one rejects something."""
    errors = []

    def one(t):
        if run.rejections:
            return
        try:
            t()
        except Exception as e:
            errors.append(e)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, plan(run)))
    if errors and not run.rejections:
        raise errors[0]
    for e in errors:
        run.log("besides:", str(e)[:300])
