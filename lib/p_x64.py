"""C02, C03: at-x64's encoder"""
from common import *

QUICK_DISPS = "{0, 1, 42, 127, 128, 129, 255, 256, 257, 32768, 2147483647}"
MORE_DISPS = ("{0, 1, 42, 126, 127, 128, 129, 130, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 8388608, 16777216, "
              "2147483647, 305419896}")
IMMS = "{0, 1, 5, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 19088743}"


def le(v):
    return int.from_bytes(bytes(v), "little")


def req_line(q):
    """request record -> harness command"""
    def mem(m):
        d = le(m["disp"])
        if m["f"] == "ro":
            return "ro %d %d" % (m["base"], d)
        if m["f"] == "rip":
            return "rip %d" % d
        return "sib %s %d %d %d" % ("-" if m["base"] < 0 else m["base"], d, m["index"], m["scale"])
    op, w, d, s = q["op"], q["w"], q["dst"], q["src"]
    if op == "mov":
        if d["k"] == "m":
            return "x64 mr %d %s" % (s["n"], mem(d["m"]))
        if s["k"] == "r":
            return "x64 rr %d %d %d" % (w, d["n"], s["n"])
        return "x64 ri %d %d %d" % (w, d["n"], le(s["v"]))
    if op == "lea":
        return "x64 lea %d %s" % (d["n"], mem(s["m"]))
    if op == "push":
        return "x64 pushr %d %d" % (w, s["n"]) if s["k"] == "r" else "x64 pushi %d %d" % (w, le(s["v"]))
    if op == "pop":
        return "x64 popr %d %d" % (w, d["n"])
    return "x64 " + op


def wb(v, n):
    return list((v & ((1 << 8 * n) - 1)).to_bytes(n, "little"))


def rnd_word(rng, n):
    k = rng.randrange(4)
    if k == 0:
        v = rng.getrandbits(8 * n)
    elif k == 1:
        v = rng.getrandbits(rng.randrange(1, 8 * n + 1))
    elif k == 2:
        v = -rng.getrandbits(rng.randrange(1, 8 * n))
    else:
        v = (1 << rng.randrange(8 * n)) + rng.randrange(-3, 4)
    return wb(v, n)


def random_reg(rng):
    r = rng.randrange
    nil = {"k": "-"}
    k = r(4)
    w = rng.choice((64, 32, 16))
    if k <= 1:
        return {"op": "mov", "w": w, "dst": {"k": "r", "n": r(16)}, "src": {"k": "i", "v": rnd_word(rng, w // 8)}}
    if k == 2:
        w = rng.choice((8, 16, 32, 32))
        return {"op": "push", "w": w, "dst": nil, "src": {"k": "i", "v": rnd_word(rng, w // 8)}}
    return {"op": "mov", "w": w, "dst": {"k": "r", "n": r(16)}, "src": {"k": "r", "n": r(16)}}


def random_mem(rng):
    r = rng.randrange
    f = rng.choice(("ro", "sib", "sib", "rip"))
    d = rnd_word(rng, 4)
    if f == "ro":
        m = {"f": f, "base": r(16), "disp": d}
    elif f == "rip":
        m = {"f": f, "disp": d}
    else:
        m = {"f": f, "base": r(-1, 16), "disp": d, "index": r(16), "scale": r(4)}
    reg = {"k": "r", "n": r(16)}
    if r(2):
        return {"op": "lea", "w": 64, "dst": reg, "src": {"k": "m", "m": m}}
    return {"op": "mov", "w": 64, "dst": {"k": "m", "m": m}, "src": reg}


def run(c, which, gen, nrandom):
    exe = build_harness()
    th = c.thorough
    cfg = """SPECIFICATION Spec
CONSTANTS
  WHICH = "%s"
  DISPS = %s
  IMMS = %s
  MEMREGS = %s
INVARIANTS Faithful Bounded ImmPlace Prefix
""" % (which, MORE_DISPS if th else QUICK_DISPS, IMMS,
       "{0, 3, 5, 8, 13, 15}" if th else "{3}")
    reqs = printed(c.model("MCX64", cfg, expect_actions=("EncodeIt",)).out)
    n0 = len(reqs)
    reqs += [gen(c.rng) for _ in range(nrandom)]
    c.rng.shuffle(reqs)
    c.notes["requests"] = {"from_model": n0, "random": nrandom}
    calls(c, exe, reqs)


def calls(c, exe, reqs):
    both = []
    for q in reqs:
        line = req_line(q)
        both.append((q, line))
        if re.search(r"\bro \d+ 0$", line):  # there is another way to say it
            both.append((q, re.sub(r"\bro (\d+) 0$", r"reg \1", line)))
    reps = run_harness(exe, [line for _, line in both])
    ev, lines = [], []
    for (q, line), r in zip(both, reps):
        if r.get("skipped"):
            continue
        lines.append(line)
        ev.append({"q": q, "ok": r.get("ok", False), "out": r.get("out", []), "off": r.get("off", -1)})
    size = 200
    traces = [{"ev": ev[k:k + size]} for k in range(0, len(ev), size)]
    c.validate("TraceX64", traces, "SPECIFICATION Spec\nINVARIANT Conforms\n",
               lambda i: lines[i * size:(i + 1) * size])


CHECKS = {
    "C02": lambda c: run(c, "reg", random_reg, 200000 if c.thorough else 6000),
    "C03": lambda c: run(c, "mem", random_mem, 400000 if c.thorough else 8000),
}
