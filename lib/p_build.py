"""C30: the same in every build, against Builds.tla"""
import common
from common import *

# whose requests are made in both builds; whose traces of the optimised build are judged as well
COMPARED = ["C02", "C03", "C08", "C09", "C11", "C13", "C14", "C16", "C18", "C19", "C22", "C23", "C25", "C26", "C28", "C29"]
JUDGED = ["C09", "C16", "C20", "C22", "C28", "C29"]


class Part:
    """a check as part of another one: its models are run and its requests made as ever, its traces judged or not"""

    def __init__(self, c, prop, judged):
        self.c, self.judged, self.notes = c, judged, {}
        self.prop, self.thorough = c.prop, False
        self.rng = random.Random("%s/%s/%d" % (c.prop, prop, c.seed))

    def model(self, module, cfg, **kw):
        return self.c.model(module, cfg, **kw)

    def validate(self, module, traces, cfg, replay_of, name=None, **kw):
        if not self.judged:
            return None
        return self.c.validate(module, traces, cfg, replay_of, name=(name or module) + " (optimised build)", **kw)


def outcome(r):
    """what is compared of a reply: all but the wording of a refusal"""
    if r.get("crash"):
        return "crash"
    s = json.dumps({k: v for k, v in r.items() if k not in ("err", "msg")}, sort_keys=True, separators=(",", ":"))
    return s if len(s) < 2000 else s[:500] + "..." + hashlib.sha256(s.encode()).hexdigest()


def c30(c):
    import check
    th = c.thorough
    table = check.table()
    r = c.model("MCBuilds", "SPECIFICATION Spec\nCONSTANTS TOP = %d\nBASE = 3\nWIDTHS = {1, 2, 5}\nINVARIANTS Same Right\n" % (31 if th else 15))
    n = tlc("MCBuilds", "SPECIFICATION Spec\nCONSTANTS TOP = 15\nBASE = 3\nWIDTHS = {1, 2, 5}\nINVARIANT NarrowSame\n", tag=c.prop)
    if n.violated != "NarrowSame":
        raise ToolError("the model does not tell the builds apart")
    checked, optimised = build_harness(release=False), build_harness(release=True)
    seen = {}
    common.PROFILE = "release"
    try:
        for p in sorted(set(COMPARED) | set(JUDGED)):
            common.TEE = []
            t = time.time()
            table[p](Part(c, p, p in JUDGED))
            seen[p], common.TEE = common.TEE, None
            log("%s: %d requests, %.1fs" % (p, len(seen[p]), time.time() - t))
    finally:
        common.PROFILE, common.TEE = os.environ.get("VH_PROFILE", "dev"), None
    tr, rq = [], []
    for p in COMPARED:
        # (a long source takes the checked build many minutes)
        mine = [(q, a) for q, a in seen[p] if not a.get("skipped") and not q.startswith("long ") and not (q.startswith("big ") and "," in q and len(q) > 1 << 20)]
        if not th and len(mine) > 4000:
            mine = c.rng.sample(mine, 4000)
        other = run_harness(checked, [q for q, _ in mine])
        for (q, a), b in zip(mine, other):
            if not b.get("skipped"):
                tr.append({"outcomes": [outcome(b), outcome(a)]})
                rq.append(q)
    c.notes["requests"] = {p: len(x) for p, x in seen.items()}
    c.validate("TraceBuilds", tr, "SPECIFICATION Spec\nINVARIANT Conforms\n", lambda i: {"harness": rq[i], "builds": ["dev", "release"]})


CHECKS = {"C30": c30}
