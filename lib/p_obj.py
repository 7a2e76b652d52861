"""C14, C15: the object writer against MachO.tla"""
from common import *
import gen_asm as G
import p_asm


def hexs(b):
    return bytes(b).hex() or "-"


def le(b):
    return int.from_bytes(bytes(b), "little")


def obj_req(o, chunk=0):
    sy = ";".join("%s,%s,%s,%d,%d" % (y["s"][0], y["k"], hexs(y["name"]), le(y["val"]), y["ext"]) for y in o["syms"])
    rl = ";".join("%s,%d,%s,%d,%d" % (r["s"][0], le(r["addr"]), hexs(r["name"]), r["pcrel"], r["len"]) for r in o["relocs"])
    return "obj %s %s %d %s %s %d -" % (hexs(o["text"]), hexs(o["data"]), le(o["bss"]), sy or "-", rl or "-", chunk)


def w8(v):
    return list((v % (1 << 64)).to_bytes(8, "little"))


def random_obj(r, big=False):
    size = lambda: r.choice((0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, r.randrange(200), r.randrange(600) if big else 31))
    o = {"text": [r.randrange(256) for _ in range(size())], "data": [r.randrange(256) for _ in range(size())],
         "bss": w8(r.choice((0, 0, 1, 7, 8, 4096, 0x7fffffff, 0xffffffff, 1 << 33, r.randrange(1 << 40)))),
         "syms": [], "relocs": []}
    names = [list(n.encode()) for n in r.sample(G.NAMES, r.randrange(0, 13))]
    if r.random() < 0.08:
        names = [list(("s%d" % i).encode()) for i in range(r.choice((130, 260, 300)))]
    if r.random() < 0.05:
        names.insert(r.randrange(len(names) + 1), [])  # a symbol without a name
    val = lambda: r.choice((0, 1, r.randrange(300), r.randrange(1 << 32), r.randrange(1 << 62)))
    pend = {"text": [], "data": [], "bss": []}
    for n in names:
        s = r.choice(("text", "text", "data", "data", "bss"))
        k = r.choice("RRRRUA")
        pend[s].append({"s": s, "k": k, "name": n, "val": w8(0 if k == "U" else val()), "ext": k == "U" or r.random() < 0.5})
    o["syms"] = pend["text"] + pend["data"] + pend["bss"]
    if o["syms"]:
        for s in ("text", "data"):
            if o[s] or r.random() < 0.2:
                for _ in range(r.choice((0, 0, 1, 2, 3, 7, 20 if big else 2))):
                    o["relocs"].append({"s": s, "addr": list(r.choice((r.randrange(len(o[s]) or 1), r.randrange(70000),
                                                                       r.randrange(1 << 31))).to_bytes(4, "little")),
                                        "name": r.choice(o["syms"])["name"], "pcrel": r.random() < 0.3,
                                        "len": r.randrange(4)})
    return o


def scale_objs(r, deep=False):
    """objects at the sizes where fields and counters end"""
    out = []
    B = lambda n: [r.randrange(256) for _ in range(n)]
    sy = lambda s, k, n, v, e: {"s": s, "k": k, "name": list(n.encode()), "val": w8(v), "ext": k == "U" or e}
    rel = lambda s, a, n: {"s": s, "addr": list(a.to_bytes(4, "little")), "name": list(n.encode()), "pcrel": r.random() < 0.5,
                           "len": r.randrange(4)}

    def obj(text, data, bss, syms, relocs):
        order = {"text": 0, "data": 1, "bss": 2}
        out.append({"text": text, "data": data, "bss": w8(bss), "syms": sorted(syms, key=lambda y: order[y["s"]]),
                    "relocs": sorted(relocs, key=lambda x: order[x["s"]])})
    for n in (127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536) + ((200000,) if deep else ()):
        for t, d in ((n, 5), (3, n), (n, n)) if n < 5000 else ((n, 5), (3, n)):
            obj(B(t), B(d), r.choice((0, 9, 1 << 20)), [sy(r.choice(("text", "data", "bss")), "R", "a", t, True), sy("data", "R", "b", d, False),
                sy("text", "U", "u", 0, True)], [rel("text", max(0, t - 4), "b"), rel("data", max(0, d - 8), "a"), rel("data", 0, "u")])
    for bss in [1 << k for k in range(3, 63, 3)] + [(1 << 32) - 1, (1 << 32) + 1, (1 << 31), (1 << 31) - 1, 1 << 62]:
        obj(B(r.choice((0, 3, 8))), B(r.choice((0, 5))), bss, [sy("bss", "R", "z", bss - 1, True)], [])
    for n in (127, 128, 255, 256, 257, 600) + ((5000,) if deep else ()):  # symbols
        for ks in ("R", "U", "A", "RUA"):
            ns = ["%s%d" % (r.choice(("s", "t_", "long_name_")), i) for i in range(n)]
            ss = [sy(r.choice(("text", "data", "bss")), r.choice(ks), x, r.getrandbits(r.choice((3, 8, 31, 62))), r.random() < 0.5) for x in ns]
            obj(B(9), B(9), 9, ss, [rel(r.choice(("text", "data")), r.randrange(9), r.choice(ns)) for _ in range(20)] +
                [rel("text", 1, ns[-1]), rel("data", 1, ns[0])])
    for n in (127, 128, 255, 256, 257, 600) + ((5000,) if deep else ()):  # relocations
        for st, sd in ((n, 2), (2, n), (n, n)):
            obj(B(n), B(n), 0, [sy("text", "R", "a", 1, True), sy("data", "U", "b", 0, True)],
                [rel("text", i, r.choice("ab")) for i in range(st)] + [rel("data", i, r.choice("ab")) for i in range(sd)])
    for n in (15, 16, 17, 63, 64, 127, 128, 255, 256, 257, 1000, 5000, 65534, 65535, 65536):  # names
        obj(B(4), [], 0, [sy("text", "R", "n" * n, 1, True), sy("text", "R", "m", 2, False), sy("data", "U", "n" * (n - 1), 0, True)],
            [rel("text", 0, "m"), rel("text", 1, "n" * (n - 1))])
    ns = ["%s%d" % ("x" * 250, i) for i in range(280)]  # a string table beyond 64 KB
    obj(B(4), B(4), 0, [sy(r.choice(("text", "data")), r.choice("RUA"), x, 1, False) for x in ns], [rel("data", 2, ns[-1])])
    # symbol numbers and relocations beyond 16 bits
    obj(B(3), [], 0, [sy("text", "U", "u", 0, True)] * 65540 + [sy("text", "R", "z", 1, True)], [rel("text", 0, "z")])
    obj(B(3), B(4), 0, [sy("text", "R", "a", 1, True)], [rel("text", 0, "a")] * 65540 + [rel("data", 1, "a")])
    # the same name in several sections, no relocation being for it
    for _ in range(40):
        ns = r.sample(G.NAMES, 3)
        ss = [sy(r.choice(("text", "data", "bss")), r.choice("RUA"), r.choice(ns), r.randrange(99), r.random() < 0.5) for _ in range(r.randrange(2, 8))]
        one = [y["name"] for y in ss if sum(z["name"] == y["name"] for z in ss) == 1]
        obj(B(5), B(5), 0, ss, [rel("text", 1, bytes(r.choice(one)).decode())] if one else [])
    return out


def model_objs(c):
    cfg = """SPECIFICATION Spec
CONSTANTS
  TEXTS = %s
  DATAS = %s
  BSSES = %s
  SHAPES = %s
  RELOCS = %s
INVARIANTS WellFormed Recovered
""" % (("{0, 1, 8}", "{0, 3, 8}", "{0, 13}", "{0, 1, 2, 3, 4, 5}", "{0, 2, 3, 4}") if c.thorough else
       ("{0, 1, 8}", "{0, 3}", "{0, 13}", "{0, 1, 2, 3}", "{0, 1, 2, 4}"))
    return printed(c.model("MCObj", cfg).out)


def complete(o):
    return {bytes(x["name"]) for x in o["relocs"]} <= {bytes(y["name"]) for y in o["syms"]}


def dangling(r):
    """an object with a relocation for a symbol that it does not have"""
    while True:
        o = random_obj(r)
        if o["relocs"]:
            x = r.choice(o["relocs"])
            n = list(r.choice(o["syms"])["name"])
            x["name"] = r.choice((n + [97], n[1:] or [122], n[:-1] or [122], [95] + n, list(bytes(n).swapcase()), list(b"elsewhere")))
            if not complete(o):
                return o


def run(aspects, nq, nt):
    def f(c):
        th = c.thorough
        exe = build_harness()
        objs = model_objs(c)
        nm = len(objs)
        objs += [random_obj(c.rng, True) for _ in range(nt if th else nq)]
        objs += scale_objs(c.rng, th) + [dangling(c.rng) for _ in range(nt // 20 if th else nq // 10)]
        reqs = [obj_req(o, c.rng.choice((0, 0, 1, 3, 64))) for o in objs]
        reps = run_harness(exe, reqs)
        keep = [(q, {"obj": o, "ok": bool(r.get("ok", False)), "file": r.get("file", [])})
                for q, o, r in zip(reqs, objs, reps) if not r.get("skipped")]
        c.notes["objects"] = {"from_model": nm, "random": len(objs) - nm, "dangling": sum(not complete(o) for o in objs)}
        c.validate("TraceObj", [t for _, t in keep],
                   "SPECIFICATION Spec\nCONSTANT ASPECTS = {%s}\nINVARIANT Conforms\n" % ", ".join('"%s"' % a for a in aspects),
                   lambda i: {"harness": keep[i][0]})
        # the assembler's own objects
        src = [G.program(c.rng, w={"movs": 4, "label": 4}).text() for _ in range(3000 if th else 500)]
        p_asm.run_sources(c, src, ("wellformed",) if "wellformed" in aspects else ("content", "symbols", "external", "relocs"),
                          "TraceAsm")
    return f


def c25(c):
    """written by at-obj, read back with at-mac's readers"""
    th = c.thorough
    exe = build_harness()
    objs = [o for o in model_objs(c) if complete(o)]
    nm = len(objs)
    objs += [random_obj(c.rng, True) for _ in range(20000 if th else 2500)]
    objs += [o for o in scale_objs(c.rng, th) if len(o["syms"]) + len(o["relocs"]) < 20000]
    c.notes["objects"] = {"from_model": nm, "random": len(objs) - nm}
    read_back(c, exe, objs)


def read_back(c, exe, objs):
    reqs = [obj_req(o, c.rng.choice((0, 0, 1, 3, 64))).replace("obj ", "dump ", 1) for o in objs]
    reps = run_harness(exe, reqs)
    keep = [(q, dict(r, obj=o)) for q, o, r in zip(reqs, objs, reps) if not r.get("skipped")]
    c.validate("TraceDump", [t for _, t in keep], "SPECIFICATION Spec\nINVARIANT Conforms\n",
               lambda i: {"harness": keep[i][0]})


def c29(c):
    """objects of any size: what lies beyond 32-bit offsets or 64-bit addresses has no file"""
    th, rng = c.thorough, c.rng
    exe = build_harness()
    S = '{"zero", "few", "half", "half more", "full", "beyond", "no header", "no tables", "tight", "roomy"}'
    r = c.model("MCLarge", """SPECIFICATION Spec
CONSTANTS
  TEXTS = %s
  DATAS = %s
  BSSES = %s
  VALUES = %s
INVARIANTS Right NoOther Room
""" % ((S, S, '{"zero", "few", "full", "upper half", "most", "all", "below"}', '{"zero", "few", "upper half", "all"}') if th else
       (S, '{"zero", "few", "half more", "full"}', '{"zero", "upper half", "most"}', '{"few", "all"}')))
    objs = printed(r.out)
    objs = [dict(o, **{k: o.get(k, []) for k in ("syms", "relocs", "marks")}) for o in objs]
    contents = lambda o: le(o["text"]) + le(o["data"])
    small = [o for o in objs if contents(o) < 1 << 16]
    huge = {}
    for o in objs:  # each of these contents is tried with few of its .bss sections and values
        if 1 << 16 <= contents(o) <= (1 << 32) + 4096:
            huge.setdefault((le(o["text"]), le(o["data"])), []).append(o)
    plain = lambda o: le(o["bss"]) + sum(le(y["val"]) for y in o["syms"])  # (nothing else may stop it)
    huge = [o for k in sorted(huge) for o in [min(huge[k], key=plain)] + rng.sample(huge[k], 3 if th else rng.random() < 0.3)]
    near = lambda: max(0, min((1 << 64) - 1, rng.choice((0, 0, 1 << 31, 1 << 32, 1 << 62, 1 << 63, 1 << 64)) + rng.choice((-1, 1)) * rng.randrange(60)))
    for _ in range(10000 if th else 1000):
        o = {"text": w8(rng.choice((0, 3, rng.randrange(20)))), "data": w8(rng.choice((0, 5, rng.randrange(20)))), "bss": w8(near()), "relocs": [], "marks": []}
        o["syms"] = [{"s": s, "k": k, "name": [97 + i], "val": w8(0 if k == "U" else near()), "ext": k == "U" or rng.random() < 0.5}
                     for i, (s, k) in enumerate((s, rng.choice("RRRAU")) for s in ("text", "data", "bss") for _ in range(rng.randrange(3)))]
        small.append(o)

    def req(o):
        f = obj_req(dict(o, text=[], data=[])).split(" ")
        return "big %d %d %s %s %s %s" % (le(o["text"]), le(o["data"]), f[3], f[4], f[5],
                                          ";".join("%s,%d,%s" % (m["s"][0], le(m["at"]), hexs(m["b"])) for m in o["marks"]) or "-")
    reqs = [req(o) for o in small + huge]
    reps = run_harness(exe, reqs[:len(small)])
    with ThreadPoolExecutor(2) as ex:  # (each may take several GB)
        reps += list(ex.map(lambda q: run_harness(exe, [q])[0], reqs[len(small):]))
    keep = []
    for q, o, a in zip(reqs, small + huge, reps):
        if a.get("skipped") or a.get("crash") == -9:  # not tried, or ended for want of memory
            continue
        keep.append((q, {"obj": o, "ok": bool(a.get("ok", False)), "file": a.get("file", {"len": [0] * 8, "runs": []})}))
    # the assembler, on sources with that much in the middle (the optimised build, which takes seconds for it)
    r2 = c.model("MCLong", 'SPECIFICATION Spec\nCONSTANTS\n  HEADS = {"none", "a", "to b", "b, to b", "a, to b"}\n'
                 '  TAILS = {"none", "b", "to a", "b, to b", "both"}\n'
                 '  PADS = {"none", "few", "near", "edge", "past", "beyond", "no room", "full"}\n  SECTIONS = {"text", "data"}\nINVARIANTS Right Room\n')
    longs = {}
    for p in printed(r2.out):
        longs.setdefault(0 if le(p["pad"]) < 1 << 16 else le(p["pad"]), []).append(p)
    # (with that much before them: a label in either section, which is written, and a relocation, which may not be)
    moves, labels = (lambda p, k=k: any(l["k"] == k for l in p["tail"]) for k in ("mov", "label"))
    for k in [k for k in longs if k]:
        kinds = [[p for p in longs[k] if p["sect"] == sect and labels(p) and not moves(p)] for sect in ("text", "data")]
        kinds.append([p for p in longs[k] if moves(p)])
        longs[k] = [p for ps in (kinds[:1] if k > 1 << 32 and not th else kinds) for p in rng.sample(ps, 2 if th else 1)]
    longs = [p for k in sorted(longs) for p in longs[k]]
    exe = build_harness(release=True)

    def text(ls):
        one = lambda l: {"mov": "mov %s, %s" % (G.R64[l["d"]], bytes(l["name"]).decode()), "label": bytes(l["name"]).decode() + ":",
                         "byte": "db %d" % l["v"]}[l["k"]]
        return "".join(one(l) + "\n" for l in ls)
    q2 = ["long %s %d %s" % (("section .%s\n%s" % (p["sect"], text(p["head"]))).encode().hex(), le(p["pad"]), hexs(text(p["tail"]).encode()))
          for p in longs]
    with ThreadPoolExecutor(4) as ex:  # (each takes several GB)
        for q, p, a in zip(q2, longs, ex.map(lambda q: run_harness(exe, [q])[0], q2)):
            if not (a.get("skipped") or a.get("crash") == -9 or a.get("signal") == 9):
                keep.append((q, {"src": p, "ok": bool(a.get("ok", False)), "file": a.get("file", {"len": [0] * 8, "runs": []})}))
    c.notes["long_sources"] = len(longs)
    c.notes["objects"] = {"from_model": r.distinct // 2, "replayed": len(keep), "of_several_GB": len(huge),
                          "written": sum(t["ok"] for _, t in keep)}
    c.validate("TraceLarge", [t for _, t in keep], "SPECIFICATION Spec\nINVARIANT Conforms\n", lambda i: {"harness": keep[i][0]})


CHECKS = {"C29": c29, "C25": c25, "C14": run(("wellformed",), 1500, 15000), "C15": run(("recovered",), 1500, 15000)}
