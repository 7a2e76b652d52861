"""Shared plumbing: build the harness from /repo, run it, run TLC, report.
Nothing here (nor in the harness) judges the code: a verdict is always TLC's."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
REPLAYS = os.path.join(VERIF, "replays")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, flush=True)


# ---------------------------------------------------------------- building
def _cargo(args, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo"] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stdout[-6000:]))


PROFILE = os.environ.get("VH_PROFILE", "dev")  # the profile the code under test is built in


def build_harness(release=None):
    release = PROFILE == "release" if release is None else release
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":  # self-test against a scratch copy: same harness, other path
        dst = os.path.join(WORK, "harness-copy-" + os.path.basename(REPO))
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)
        t = open(os.path.join(dst, "Cargo.toml")).read().replace('"/repo/', '"%s/' % REPO)
        open(os.path.join(dst, "Cargo.toml"), "w").write(t)
        src = dst
    _cargo(["build", "--offline", "--quiet", "--manifest-path", os.path.join(src, "Cargo.toml")] + ["--release"] * release,
           os.path.join(BUILD, "harness" if REPO == "/repo" else "harness-" + os.path.basename(REPO)))
    return os.path.join(BUILD, "harness" if REPO == "/repo" else "harness-" + os.path.basename(REPO), "release" if release else "debug", "vh")


def build_cli(release=None):
    release = PROFILE == "release" if release is None else release
    """the real at-asm command, from /repo's working tree"""
    target = os.path.join(BUILD, "cli" if REPO == "/repo" else "cli-" + os.path.basename(REPO))
    _cargo(["build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "at-asm", "Cargo.toml"),
            "--bin", "at-asm"] + ["--release"] * release, target)
    return os.path.join(target, "release" if release else "debug", "at-asm")


def build_harness_big(c):
    """the harness on a big-endian machine (s390x, interpreted by Miri): a command for run_harness, or None if
    this sandbox cannot do that (noted in the evidence; it says nothing about the code)"""
    src = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        build_harness()
        src = os.path.join(WORK, "harness-copy-" + os.path.basename(REPO))
    root = os.path.join(BUILD, "miri-sysroot")
    env = dict(os.environ, MIRI_SYSROOT=root, CARGO_TARGET_DIR=os.path.join(BUILD, "miri" if REPO == "/repo" else "miri-" + os.path.basename(REPO)),
               CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0",
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
    env.pop("RUSTFLAGS", None)
    os.makedirs(WORK, exist_ok=True)
    try:
        if not os.path.isdir(os.path.join(root, "lib", "rustlib", TARGET_BIG)):
            shutil.rmtree(root, ignore_errors=True)
            r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", TARGET_BIG], env=env, cwd=WORK,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode:
                raise OSError(r.stdout[-400:])
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", TARGET_BIG, "--manifest-path", os.path.join(src, "Cargo.toml")]
        p = subprocess.run(cmd, env=env, input="host\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if '"host":"big"' not in p.stdout:
            raise OSError(p.stderr[-400:])
    except (OSError, subprocess.TimeoutExpired) as x:
        log("no big-endian machine here:", str(x))
        c.notes["big_endian_machine"] = "not available: " + str(x)
        return None
    return cmd, env


TARGET_BIG = "s390x-unknown-linux-gnu"


# ------------------------------------------------------------ the harness
def _run_shard(exe, reqs):
    out, i, crashes = [], 0, 0
    cmd, env = exe if isinstance(exe, tuple) else ([exe], dict(os.environ, RUST_BACKTRACE="0"))
    while i < len(reqs):
        p = subprocess.run(cmd, input="\n".join(reqs[i:]) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=env)
        lines = [l for l in p.stdout.split("\n") if l.endswith("}")]
        for l in lines:
            out.append(json.loads(l))
        i += len(lines)
        if i < len(reqs):  # the process died in request i: that is data
            if p.returncode == 0:
                raise ToolError("harness stopped early: " + p.stderr[-500:])
            if "unsupported operation" in p.stderr:  # by Miri
                raise ToolError(p.stderr[-500:])
            out.append({"crash": p.returncode})
            i += 1
            crashes += 1
            if crashes >= 3:
                out.extend({"skipped": True} for _ in reqs[i:])
                break
    return out


def run_harness(exe, reqs):
    """replies in request order; {"crash":n} if the process died, {"skipped":true} if not tried"""
    if not reqs:
        return []
    n = max(1, min(NPROC, len(reqs) // 8 or 1))
    cuts = [len(reqs) * k // n for k in range(n + 1)]
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda k: _run_shard(exe, reqs[cuts[k]:cuts[k + 1]]), range(n)))
    reps = [r for p in parts for r in p]
    if TEE is not None:
        TEE.extend(zip(reqs, reps))
    return reps


TEE = None  # where requests and replies are collected, if anywhere

# -------------------------------------------------------------------- TLC
class TlcResult:
    pass


_cnt = [0]


def workdir(tag):
    _cnt[0] += 1
    d = os.path.join(WORK, "%s-%d-%d" % (tag, os.getpid(), _cnt[0]))
    os.makedirs(d, exist_ok=True)
    return d


def tlc(module, cfg, env=None, workers=None, timeout=840, tag="tlc", extra=(), heap="6g", keep=False):
    """runs TLC on spec/<module>.tla with the given configuration text"""
    d = workdir(tag)
    cfgf = os.path.join(d, module + ".cfg")
    open(cfgf, "w").write(cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers or NPROC), "-config", cfgf, "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-deadlock", "-fp", "7", *extra, os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on " + module)
    r = TlcResult()
    r.out, r.wall = p.stdout, time.time() - t0
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", p.stdout)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.violated = None
    m = re.search(r"Error: Invariant (\S+) is violated", p.stdout) or \
        re.search(r"Error: Action property (\S+) is violated", p.stdout) or \
        re.search(r"Error: (?:Evaluating assumption|Assumption) .*is false", p.stdout)
    if m:
        r.violated = m.group(1) if m.groups() else "assumption"
    r.ok = "Model checking completed. No error has been found." in p.stdout
    # variables of the last printed state
    r.last = {}
    blocks = re.split(r"\nState \d+:|\n\d+: <", p.stdout)
    if r.violated:
        tail = blocks[-1]
        for v in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ \w+ = |^\s*$|\Z)", tail, re.M | re.S):
            r.last[v.group(1)] = " ".join(v.group(2).split())
        if not r.last:
            for v in re.finditer(r"^(\w+) = (.*)$", tail, re.M):
                r.last[v.group(1)] = v.group(2).strip()
    if not r.ok and r.violated is None:
        raise ToolError("TLC failed on %s:\n%s" % (module, p.stdout[-5000:]))
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    else:
        r.dir = d
    return r


def printed(out):
    """what the model printed with PrintT(ToJson(..))"""
    return [json.loads(json.loads(l)) for l in out.split("\n") if l.startswith('"') and l.endswith('"')]


def coverage_counts(out):
    """action -> number of distinct states it found, from -coverage output"""
    c = {}
    for m in re.finditer(r"<(\w+) line \d+[^>]*>: (\d+):(\d+)", out):
        c[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    return c


def ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


# ------------------------------------------------------------------ a check
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.notes = [], [], {}
        self.thorough = self.tier == "thorough"

    def model(self, module, cfg, name=None, expect_actions=(), **kw):
        """checks the specification itself; a failure is an error of ours"""
        r = tlc(module, cfg, tag=self.prop, extra=("-coverage", "1") if expect_actions else (), **kw)
        if not r.ok:
            raise ToolError("the specification breaks its own property %s\n%s" % (r.violated, r.out[-4000:]))
        if expect_actions:
            cov = coverage_counts(r.out)
            for a in expect_actions:
                if cov.get(a, (0, 0))[1] == 0:
                    raise ToolError("vacuous model: action %s never taken in %s" % (a, module))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": name or module, "distinct": r.distinct, "generated": r.generated,
                            "wall_s": round(r.wall, 1)})
        log("model %s: %d distinct states, %.1fs" % (name or module, r.distinct, r.wall))
        return r

    def validate(self, module, traces, cfg, replay_of, name=None, batch=None, per_state=True, **kw):
        """trace validation: every trace (a dict) must be a behaviour of the specification.
        replay_of(i) gives what is needed to reproduce trace i."""
        if not traces:
            raise ToolError("no traces for " + module)
        d = workdir(self.prop + "-tr")
        f = os.path.join(d, "traces.ndjson")
        ndjson(f, traces)
        r = tlc(module, cfg + "\nALIAS Short\n", env={"TRACES": f}, tag=self.prop, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(traces)
        self.models.append({"model": name or module, "traces": len(traces), "distinct": r.distinct,
                            "generated": r.generated, "wall_s": round(r.wall, 1)})
        log("validated %d traces against %s: %d states, %.1fs" % (len(traces), name or module, r.distinct, r.wall))
        if len(self.samples) < 4:
            for k in (0, len(traces) // 2):
                self.samples.append({"model": name or module, "trace": clip(traces[k])})
        if r.violated:
            t = int(r.last.get("t", "1"))
            why = r.last.get("why", r.last.get("bad", "?"))
            self.violation(why, t - 1, traces[t - 1], replay_of(t - 1), r)
        if os.environ.get("VH_SELFTEST"):
            selftest(self.prop, module, traces, cfg, d, int(os.environ["VH_SELFTEST"]))
        shutil.rmtree(d, ignore_errors=True)
        return r

    def violation(self, why, index, trace, replay, r):
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.sha1(json.dumps([self.prop, replay], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, h))
        json.dump({"property": self.prop, "why": why, "replay": replay, "trace": trace,
                   "tlc": r.out[-6000:]}, open(path, "w"), indent=1)
        raise Violation(why, path)

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "runs": self.models}
        cov.update(self.notes)
        json.dump({"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
                   "seed": self.seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1),
                   "violations": violations},
                  open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)


ASSUMPTIONS = [
    "the host is little-endian x86-64 (the machine's byte order is observed through the library)",
    "TLC, its Json/IOUtils modules and rustc are trusted; harness and driver only move bytes",
]


# ------------------------------------------------------- testing the binding
GIVEN = {"q", "src", "obj", "cmds", "args", "before", "cwd", "given", "e", "n", "name", "k", "limit", "kind", "once", "big",
         "host"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "list"
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, "leaf"


def corrupt(rng, trace):
    """a copy of the trace with one observed value changed"""
    t = json.loads(json.dumps(trace))
    # what the driver put into the trace is no observation
    path, kind = rng.choice([x for x in leaves(t) if not GIVEN & set(x[0]) and x[0][:1] not in (("f",), ("ty",))] or [((), "")])
    if not path:
        return t, path
    p = t
    for k in path[:-1]:
        p = p[k]
    v = p[path[-1]]
    if kind == "list":
        k = rng.randrange(3)
        if k == 0:
            v.pop(rng.randrange(len(v)))
        elif k == 1:
            v.insert(rng.randrange(len(v)), json.loads(json.dumps(rng.choice(v))))
        else:
            v.reverse()
    elif isinstance(v, bool):
        p[path[-1]] = not v
    elif isinstance(v, int):
        p[path[-1]] = rng.choice((v ^ (1 << rng.randrange(8)), v + 1, max(0, v - 1), 0, 255))
    elif isinstance(v, str):
        p[path[-1]] = rng.choice((v + "x", "", "exit", "panic", "ok"))
    return t, path


def selftest(prop, module, traces, cfg, d, n):
    """VH_SELFTEST=n: corrupts recorded traces one value at a time; each must be rejected (or be about
    something the specification leaves open), and none may make TLC fail"""
    rng = random.Random("%s/%s" % (prop, module))

    def one(k):
        r = random.Random("%s/%s/%d" % (prop, module, k))
        src = r.choice(traces)
        if len(json.dumps(src)) > 60000:
            return None
        t, path = corrupt(r, src)
        if t == src:
            return None
        f = os.path.join(d, "mut%d.ndjson" % k)
        ndjson(f, [t])
        try:
            res = tlc(module, cfg + "\nALIAS Short\n", env={"TRACES": f}, tag=prop + "-mut", workers=1, heap="2g")
            return ("rejected" if res.violated else "accepted", path, t)
        except ToolError as e:
            return ("error", path, str(e)[-1500:])
    with ThreadPoolExecutor(4) as ex:
        rs = [x for x in ex.map(one, range(n)) if x]
    cnt = {}
    for k, path, t in rs:
        cnt[k] = cnt.get(k, 0) + 1
        if k != "rejected":
            log("selftest %s %s %s %s" % (prop, module, k, ".".join(map(str, path))), t if k == "error" else clip(t, 400))
    log("selftest %s %s: %s" % (prop, module, cnt))


def clip(x, n=1200):
    s = json.dumps(x, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "...(%d more)" % (len(s) - n)


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
        c.evidence()
        known = os.path.join(VERIF, "known_findings.txt")
        for l in open(known) if os.path.exists(known) else ():
            if l.startswith("finding: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
        log("%s held: %d states, %d traces, %.1fs" % (prop, c.states, c.traces, time.time() - c.t0))
        return 0
    except Violation as v:
        c.evidence(1)
        print("rejected: " + v.what[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
