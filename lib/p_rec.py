"""C16, C17 (records), C18 (load-command streams), C22 (coded constants) against Records.tla / Consts.tla"""
from common import *
import itertools

LAYOUT = {  # kinds of fields only: what may be put into a record (widths and places are the specification's)
    "header": ["Magic", "Cpu", "FileType", 4, 4, "Flags", 4],
    "seg": [4, 4, "name", 8, 8, 8, 8, 4, 4, 4, 4],
    "sect": ["name", "name", 8, 8, 4, 4, 4, 4, "SectFlags", 4, 4, 4],
    "symtab": [4] * 6, "dysymtab": [4] * 20, "build": [4, 4, "Platform", "Version", "Version", 4],
    "tool": ["Tool", 4], "nlist": [4, "NTypeField", 1, 2, 8], "reloc": [4, "Bits"]}
NAMES = {
    "Magic": "Magic64 Cigam64 Magic Cigam FatMagic FatCigam".split(),
    "FileType": "Object Execute FVMLib Core Preload Dylib Dylinker Bundle Dsym".split(),
    "Flag": "NoUndefs IncrLink DyldLink BindAtLoad PreBound SplitSegs TwoLevel ForceFlat NoMultiDefs NoFixPreBinding "
            "PreBindable AllModsBound SubsectionsViaSymbols Canonical Pie HasTlvDescriptors".split(),
    "SectionType": "Regular Zerofill CstringLiterals FourByteLiterals EightByteLiterals LiteralPointers Coalesced".split(),
    "SectionAttr": "PureInstructions NoToc StripStaticSyms LiveSupport Debug SomeInstructions ExtReloc LocReloc".split(),
    "NType": "Undf Abs Sect Pbud Indr".split(), "DebugSymbol": ["Gsym"],
    "RelocLength": "Byte Word Long Quad".split(),
    "X86RelocType": "Vanilla Pair Sectdiff PbLaPtr LocalSectdiff Tlv".split(),
    "X86_64RelocType": "Unsigned Signed Branch GotLoad Got Subtractor Signed1 Signed2 Signed4 Tlv".split(),
    "Platform": "MacOS IOS TvOS WatchOS BridgeOS MacCatalyst IOSSimulator TvOSSimulator WatchOSSimulator Driverkit".split(),
    "Tool": "Clang Swift LD".split(), "Cpu": ["X86", "X86_64"]}


def le(n, w):
    return list((n % (1 << (8 * w))).to_bytes(w, "little"))


def num(b):
    return int.from_bytes(bytes(b), "little")


def arg(kind, v):
    """one field as the harness wants it"""
    if isinstance(kind, int):
        return [str(num(v))]
    if kind == "name":
        return [bytes(v).hex() or "-"]
    if kind == "Flags":
        return ["+".join(v) or "-"]
    if kind == "SectFlags":
        return ["+".join(v[0]) or "-", v[1]]
    if kind == "Version":
        return ["%d.%d.%d" % (num(v[0]), v[1][0], v[2][0])]
    if kind == "NTypeField":
        return ["Stab:" + v[1]] if v[0] == "Stab" else ["Norm:%d:%s:%d" % (v[2][0], v[1], v[3][0])]
    if kind == "Bits":
        return [str(num(v[0])), str(v[1][0]), v[2], str(v[3][0]), str(v[4][0])]
    return [v]


def args(ty, f):
    return " ".join(x for k, v in zip(LAYOUT[ty], f) for x in arg(k, v))


def rnum(r, w):
    k = r.random()
    if k < 0.2:
        return le(r.choice((0, 1, 2, 127, 128, 255, 256)), w)
    if k < 0.4:
        return le(1 << r.randrange(8 * w), w)
    if k < 0.5:
        return le((1 << (8 * w)) - 1 - r.choice((0, 1, 1 << r.randrange(8 * w))), w)
    return [r.randrange(256) for _ in range(w)]


KNOWN = ("", "__PAGEZERO", "__TEXT", "__DATA", "__DATA_CONST", "__LINKEDIT", "__LD", "__DWARF", "__OBJC", "__IMPORT", "__text", "__data",
         "__bss", "__const", "__cstring", "__stubs", "__common", "__got", "__debug_info", "__debug_abbrev", "__unwind_info",
         "__compact_unwind", "__eh_frame", "__thread_data")


def rname(r):
    if r.random() < 0.3:
        return list(r.choice(KNOWN)[:16].encode())
    return [r.randrange(1, 128) for _ in range(r.choice((0, 1, 5, 6, 7, 14, 15, 16, 16)))]


def rset(r, names):
    k = r.choice((0, 1, 2, 3, len(names) // 2, len(names)))
    s = r.sample(names, min(k, len(names)))
    return s + ([r.choice(s)] if s and r.random() < 0.2 else [])


def rfield(r, k):
    if isinstance(k, int):
        return rnum(r, k)
    if k == "name":
        return rname(r)
    if k == "Magic":
        return "Magic64"
    if k == "Flags":
        return rset(r, NAMES["Flag"])
    if k == "SectFlags":
        return [rset(r, NAMES["SectionAttr"]), r.choice(NAMES["SectionType"])]
    if k == "Version":
        return [rnum(r, 2), rnum(r, 1), rnum(r, 1)]
    if k == "NTypeField":
        if r.random() < 0.1:
            return ["Stab", "Gsym"]
        return ["Norm", r.choice(NAMES["NType"]), [r.randrange(2)], [r.randrange(2)]]
    if k == "Bits":
        return [rnum(r, 3) + [0], [r.randrange(2)], r.choice(NAMES["RelocLength"]), [r.randrange(2)], [r.randrange(16)]]
    return r.choice(NAMES[k])


CMD = {"seg": (25, 72, 80, "sect"), "symtab": (2, 24, 0, ""), "dysymtab": (11, 80, 0, ""), "build": (50, 24, 8, "tool")}


def rrec(r, ty, nsub=None):
    f = [rfield(r, k) for k in LAYOUT[ty]]
    if ty in CMD:
        n = (r.choice((0, 0, 1, 2, 3, 255, 256, 1000)) if nsub is None else nsub) if CMD[ty][3] else 0
        f[0], f[1] = le(CMD[ty][0], 4), le(CMD[ty][1] + n * CMD[ty][2], 4)
        if ty == "seg":
            f[9] = le(n, 4)
        if ty == "build":
            f[5] = le(n, 4)
    return f


def rcmd(r, big=False):
    k = r.choice(list(CMD))
    n = r.choice((0, 1, 1, 2, 3) + ((40, 257) if big else ())) if CMD[k][3] else 0
    return {"k": k, "f": rrec(r, k, n), "sub": [rrec(r, CMD[k][3]) for _ in range(n)]}


def cmds_args(cmds):
    out = []
    for c in cmds:
        out.append("@%s %s" % (c["k"], args(c["k"], c["f"])))
        out += ["+ " + args(CMD[c["k"]][3], s) for s in c["sub"]]
    return " ".join(out)


TYPES = '{"header", "seg", "sect", "symtab", "dysymtab", "build", "tool", "nlist", "reloc"}'


def model_records(c):
    r = c.model("MCRecords", "SPECIFICATION Spec\nCONSTANTS TYPES = %s\nBACKS = {%s}\nINVARIANTS Sized ReadsBack\n"
                % (TYPES, "1, 2, 3, 4" if c.thorough else "1, 2"))
    out, seen = [], set()
    for p in printed(r.out):
        k = (p["ty"], json.dumps(p["f"]))
        if k not in seen:
            seen.add(k)
            out.append(p)
    if {p["ty"] for p in out} != set(LAYOUT):
        raise ToolError("records missing from the model")
    return out


def encode(c, rows):
    """both encodings of given records or command sequences, by the specification"""
    d = workdir(c.prop + "-enc")
    f = os.path.join(d, "given.ndjson")
    ndjson(f, rows)
    r = tlc("EncRecords", "SPECIFICATION Spec\n", env={"TRACES": f}, tag=c.prop)
    enc = {p["n"]: p for p in printed(r.out)}
    shutil.rmtree(d, ignore_errors=True)
    if len(enc) != len(rows):
        raise ToolError("encodings missing")
    return [dict(row, le=enc[i + 1]["le"], be=enc[i + 1]["be"]) for i, row in enumerate(rows)]


DEAD = {"ok": False, "f": [], "used": 0, "order": ""}


def c16(c):
    rows = [{"ty": p["ty"], "f": p["f"]} for p in model_records(c)]
    nm = len(rows)
    for ty in LAYOUT:
        rows += [{"ty": ty, "f": rrec(c.rng, ty)} for _ in range(6000 if c.thorough else 500)]
    c.notes["records"] = {"from_model": nm, "random": len(rows) - nm}
    roundtrip(c, build_harness(), rows, "little")


def roundtrip(c, exe, rows, host):
    reqs = ["rec %s %s" % (p["ty"], args(p["ty"], p["f"])) for p in rows]
    reps = run_harness(exe, reqs)
    keep = [(q, dict(p, host=host, wok=r.get("wok", False), bytes=r.get("bytes", []), size=r.get("size", 0), eq=r.get("eq", False),
                     back=r.get("back", DEAD), back1=r.get("back1", DEAD)))
            for q, p, r in zip(reqs, rows, reps) if not r.get("skipped")]
    c.validate("TraceRec", [t for _, t in keep], 'SPECIFICATION Spec\nCONSTANT MODE = "roundtrip"\nINVARIANT Conforms\n',
               lambda i: {"harness": keep[i][0], "machine": host})


def c17(c):
    rows = model_records(c)
    nm = len(rows)
    rnd = [{"ty": ty, "f": rrec(c.rng, ty)} for ty in LAYOUT for _ in range(4000 if c.thorough else 400)]
    rows += encode(c, rnd)
    # headers under the 32-bit magic numbers: of the two orders, too
    rows += [dict(p, ty="header32", le=[0xce] + p["le"][1:], be=p["be"][:3] + [0xce] + p["be"][4:])
             for p in rows if p["ty"] == "header"][:400]
    streams = encode(c, [{"ty": "stream", "cmds": [rcmd(c.rng, k % 10 == 0) for _ in range(c.rng.randrange(1, 6))]}
                         for k in range(2000 if c.thorough else 200)])
    c.notes["records"] = {"from_model": nm, "random": len(rnd), "command_streams": len(streams)}
    orders(c, build_harness(), rows, streams, "little")


def orders(c, exe, rows, streams, host):
    reqs = []
    for p in rows + streams:
        ch = c.rng.choice((0, 0, 1, 3))
        for o in ("le", "be"):
            x, o2 = bytes(p[o]).hex(), "big" if o == "be" else "little"
            if p["ty"] == "stream":
                reqs.append("lcs r %s %d %s %d" % (o2, len(p["cmds"]), x, ch))
            else:
                reqs.append("rdrec %s %s %s %d" % (p["ty"].replace("32", ""), o2, x, ch))
    reps = run_harness(exe, reqs)
    tr, keep = [], []
    for i, p in enumerate(rows + streams):
        a, b = reps[2 * i], reps[2 * i + 1]
        if a.get("skipped") or b.get("skipped"):
            continue
        if p["ty"] == "stream":
            tr.append({"ty": "stream", "host": host, "rl": a.get("ev", []), "rb": b.get("ev", [])})
        else:
            a, b = (DEAD if x.get("crash") else x for x in (a, b))
            tr.append({"ty": p["ty"], "host": host, "rl": a, "rb": b})
        keep.append((reqs[2 * i], reqs[2 * i + 1]))
    c.validate("TraceRec", tr, 'SPECIFICATION Spec\nCONSTANT MODE = "orders"\nINVARIANT Conforms\n',
               lambda i: {"harness": list(keep[i]), "machine": host})


def c18(c):
    exe = build_harness()
    th = c.thorough
    r = c.model("MCLc", 'SPECIFICATION Spec\nCONSTANTS KINDS = {"seg", "symtab", "dysymtab", "build"}\nSUBS = {%s}\nMAXCMDS = %d\n'
                        "INVARIANTS Sofar Skips Declared All\n" % ("0, 1, 2" if th else "0, 1, 2", 4 if th else 3))
    seqs, seen = [], set()
    for p in printed(r.out):
        k = json.dumps(p)
        if k not in seen:
            seen.add(k)
            seqs.append(p)
    nm = len(seqs)
    for _ in range(6000 if th else 600):
        seqs.append([rcmd(c.rng, True) for _ in range(c.rng.choice((1, 2, 3, 4, 6, 12)))])
    seqs.append([rcmd(c.rng) for _ in range(300)])  # many commands, commands of many and all numbers of entries
    for k in ("seg", "build"):
        for n in (255, 256, 820, 1000, 8193):
            seqs.append([{"k": k, "f": rrec(c.rng, k, n), "sub": [rrec(c.rng, CMD[k][3]) for _ in range(n)]}] +
                        [rcmd(c.rng) for _ in range(2)])
        seqs += [[{"k": k, "f": rrec(c.rng, k, n), "sub": [rrec(c.rng, CMD[k][3]) for _ in range(n)]}, rcmd(c.rng)]
                 for n in range(64)]
    c.notes["streams"] = {"from_model": nm, "random": len(seqs) - nm, "commands": sum(map(len, seqs))}
    command_streams(c, exe, seqs)


def command_streams(c, exe, seqs):
    reqs = ["lcs w " + cmds_args(s) for s in seqs]
    reps = run_harness(exe, reqs)
    bad = [{"ok": False}]
    keep = [(q, {"cmds": s, "ev": r.get("ev", bad), "back": r.get("back", bad), "back1": r.get("back1", bad)})
            for q, s, r in zip(reqs, seqs, reps) if not r.get("skipped")]
    c.validate("TraceLc", [t for _, t in keep], "SPECIFICATION Spec\nINVARIANT Conforms\n", lambda i: {"harness": keep[i][0]})


# ------------------------------------------------------------------- C22
def c22(c):
    exe = build_harness()
    th = c.thorough
    c.model("ConstsOnly", "SPECIFICATION Spec\n")
    rows, reqs = [], []

    def to(ty, name, a):
        rows.append({"e": "to", "ty": ty, "name": name})
        reqs.append("code to %s %s" % (ty, a))

    def frm(ty, n, a):
        rows.append({"e": "from", "ty": ty, "n": n})
        reqs.append("code from %s %s" % (ty, a))

    def scan(ty, lo, cnt):
        rows.append({"e": "scan", "ty": ty, "lo": le(lo, 4), "cnt": cnt})
        reqs.append("scan %s %d %d" % (ty, lo % (1 << 32), cnt))

    for ty, ns in NAMES.items():
        if ty != "Cpu":
            for n in ns:
                to(ty, n, n)
    for n in NAMES["Cpu"]:
        to("CpuType", n, n)
    for t in NAMES["NType"]:
        for p, e in itertools.product((0, 1), (0, 1)):
            to("NTypeField", ["Norm", t, [p], [e]], "Norm:%d:%s:%d" % (p, t, e))
    to("NTypeField", ["Stab", "Gsym"], "Stab:Gsym")
    fl, at = NAMES["Flag"], NAMES["SectionAttr"]
    for k in range(1 << 8):
        s = [at[i] for i in range(8) if k >> i & 1]
        if k % 3 == 0:
            s.reverse()
        if s and k % 2:
            s.append(s[c.rng.randrange(len(s))])
        to("SectionAttrs", s, "+".join(s) or "-")
    for k in range(1 << 16) if th else [0, 0xffff] + [1 << i for i in range(16)] + [0xffff ^ 1 << i for i in range(16)] \
            + [1 << i | 1 << j for i in range(16) for j in range(i)] + [c.rng.randrange(1 << 16) for _ in range(1500)]:
        s = [fl[i] for i in range(16) if k >> i & 1]
        if k % 3 == 0:
            s.reverse()
        if s and k % 7 == 0:
            s.append(s[0])
        to("Flags", s, "+".join(s) or "-")
    for _ in range(4000 if th else 400):
        v = [rnum(c.rng, 2), rnum(c.rng, 1), rnum(c.rng, 1)]
        to("Version", v, "%d.%d.%d" % (num(v[0]), v[1][0], v[2][0]))
        n = rnum(c.rng, 4)
        frm("Version", n, str(num(n)))
    # numbers to names: bytes exhaustively
    for ty in ("NType", "NTypeField", "DebugSymbol", "X86RelocType", "X86_64RelocType"):
        scan(ty, 0, 256)
    # 32-bit numbers: around zero, every constant, every bit, and swapped
    rep = {}
    for ty in ("Magic", "MagicU", "FileType", "Flag", "SectionType", "SectionAttr", "RelocLength", "Platform", "Tool"):
        pts = {0} | {1 << k for k in range(32)} | {0xfeedface, 0xcafebabe, 0xcffaedfe, 0xcefaedfe, 0xbebafeca, 0xffffffff}
        pts |= {num(le(p, 4)[::-1]) for p in pts}
        pts |= {c.rng.randrange(1 << 32) for _ in range(200 if th else 20)}
        for p in sorted(pts):
            scan(ty, p - 16, 40)
        for k in range(0, 1 << (18 if th else 13), 512):
            scan(ty, k, 512)
    # sets of flags: all of the low 16 bits with every choice of the others, attributes in every combination
    for hi in (0, 0x200000, 0x800000, 0xa00000):
        for k in range(0, 1 << 16, 512):
            if th or hi == 0 or c.rng.random() < 0.25:
                scan("Flags", hi + k, 512)
    for k in range(32):
        frm("Flags", le(1 << k, 4), str(1 << k))
        if k >= 8:
            frm("SectionAttrs", le(1 << k, 4), str(1 << k))
            frm("SectionAttrs", le(1 << k | 0x400, 4), str(1 << k | 0x400))
    bits = [31, 30, 29, 27, 25, 10, 9, 8]
    for k in range(256):
        n = sum(1 << bits[i] for i in range(8) if k >> i & 1)
        frm("SectionAttrs", le(n, 4), str(n))
    for _ in range(20000 if th else 1500):
        n = c.rng.randrange(1 << 32)
        frm("Flags", le(n, 4), str(n))
        n &= 0xffffff00
        frm("SectionAttrs", le(n, 4), str(n))
    for a in (0, 3, 6, 7, 8, 12, 0x1000007, 0x1000003, 0x2000007, 0x7000001, 0x100000c, 0x81000007, 0xffffffff):
        for b in (0, 1, 2, 3, 4, 8, 0x80000003, 0x3000000, 0xffffffff):
            frm("CpuType", [le(a, 4), le(b, 4)], "%d %d" % (a, b))
    reps = run_harness(exe, reqs)
    keep = []
    for q, p, r in zip(reqs, rows, reps):
        if r.get("skipped"):
            continue
        p = dict(p)
        if p["e"] == "scan":
            p["got"] = r.get("got", [[[0, 0, 0, 0], "crash"]])
        else:
            p["ok"] = r.get("ok", False)
            p["v"] = r.get("v", "none")
        keep.append((q, p))
    c.notes["codes"] = {"to": sum(p["e"] == "to" for p in rows), "from": sum(p["e"] == "from" for p in rows),
                        "numbers_scanned": sum(p.get("cnt", 0) for p in rows)}
    c.validate("TraceCodes", [t for _, t in keep], "SPECIFICATION Spec\nINVARIANT Conforms\n", lambda i: {"harness": keep[i][0]})


SIZE = {"header": 32, "seg": 72, "sect": 80, "symtab": 24, "dysymtab": 80, "build": 24, "tool": 8, "nlist": 16, "reloc": 8}
KINDS = 13  # kinds of errors the harness can raise (the last, Interrupted, is number 13; 14: no error, but no bytes)


def fail_of(rng, kind, limit):
    """the harness' failure for a case of Tap.tla; the stream of an "end" is just shorter"""
    if kind == "end":
        return "-"
    if kind == "once" and rng.random() < 0.4:
        return "%d.14.1" % limit
    return "%d.%d.%d" % (limit, rng.randrange(KINDS + (kind == "once")), kind == "once")


def c26(c):
    """records, command sequences and objects over streams that end or fail"""
    import p_obj
    exe = build_harness()
    th = c.thorough
    r = c.model("Tap", 'SPECIFICATION Spec\nCONSTANTS SIZES = {8, 16%s}\nKINDS = {"end", "err", "once"}\nCHUNKS = {0, 1, 3, 8}\n'
                       "INVARIANTS Whole NoValue AlwaysValue\n" % (", 24" if th else ""))
    plans = {}
    for p in printed(r.out):
        plans.setdefault(p["size"], set()).add((p["limit"], p["kind"], p["chunk"]))
    plans = {k: sorted(v) for k, v in plans.items()}
    rng = c.rng
    traces, reqs, fill = [], [], []

    def reading(t, ev, raw, plan):
        for limit, kind, chunk in plan:
            for o in ("le", "be"):
                e = {"k": ev, "big": o == "be", "limit": limit, "kind": kind}
                b = bytes(raw[o])
                x = (b[:limit] if kind == "end" else b).hex() or "-"
                order = "big" if o == "be" else "little"
                f = fail_of(rng, kind, limit)
                reqs.append("rdrec %s %s %s %d %s" % (t["ty"], order, x, chunk, f) if ev == "read" else
                            "lcs r %s %d %s %d %s" % (order, len(t["cmds"]), x, chunk, f))
                t["ev"].append(e)
                fill.append(e)

    def writing(t, cmd, n, limits):
        for limit in limits:
            for how in ("e", "z", "once"):
                e = {"k": "write", "limit": limit, "once": how == "once"}
                # a refusal by Interrupted for good would be asked again forever
                f = "z%d" % limit if how == "z" else "e%d.%d.%d" % (limit, rng.randrange(KINDS + (how == "once")), how == "once")
                reqs.append(cmd(f, rng.choice((0, 0, 1, 5))))
                t["ev"].append(e)
                fill.append(e)

    recs = [{"ty": ty, "f": rrec(rng, ty)} for ty in LAYOUT for _ in range(40 if th else 5)]
    for p in encode(c, recs):
        n = SIZE[p["ty"]]
        t = {"ty": p["ty"], "f": p["f"], "cmds": [], "file": [], "ev": []}
        traces.append(t)
        reading(t, "read", p, plans.get(n) or [(k, kind, rng.choice((0, 0, 1, 7))) for k in range(n + 2) for kind in ("end", "err", "once")
                                               if k <= n or kind != "end"])
        a = args(p["ty"], p["f"])
        writing(t, lambda f, ch: "wrrec %s %d %s %s" % (f, ch, p["ty"], a), n, range(n + 2))
    seqs = [{"ty": "stream", "cmds": [rcmd(rng) for _ in range(rng.randrange(1, 5))]} for _ in range(300 if th else 40)]
    for p in encode(c, seqs):
        n = len(p["le"])
        t = {"ty": "stream", "f": [], "cmds": p["cmds"], "file": [], "ev": []}
        traces.append(t)
        pts = sorted({0, 1, n - 1, n, n + 1} | {rng.randrange(n + 1) for _ in range(24)})
        reading(t, "reads", p, [(k, kind, rng.choice((0, 0, 1, 7))) for k in pts for kind in ("end", "err", "once") if k <= n or kind != "end"])
        a = cmds_args(p["cmds"])
        writing(t, lambda f, ch: "lcs f %s %d %s" % (f, ch, a), n, pts)
    objs = [p_obj.random_obj(rng, True) for _ in range(120 if th else 24)]
    whole = run_harness(exe, [p_obj.obj_req(o) for o in objs])
    for k, (o, w) in enumerate(zip(objs, whole)):
        n = len(w.get("file", []))
        if not w.get("ok") or n > 6000:
            continue
        t = {"ty": "object", "f": [], "cmds": [], "file": w["file"], "ev": []}
        traces.append(t)
        q = p_obj.obj_req(o).rsplit(" ", 2)[0]
        writing(t, lambda f, ch: "%s %d %s" % (q, ch, f), n,
                range(n + 2) if k < (40 if th else 4) and n < 1500 else sorted({0, n - 1, n, n + 1} | {rng.randrange(n + 1) for _ in range(40)}))
    reps = run_harness(exe, reqs)
    for e, q, a in zip(fill, reqs, reps):
        e["req"] = q
        if e["k"] == "reads":
            e["evs"] = a.get("ev", [])
        elif e["k"] == "read":
            e.update(ok=a.get("ok", False), f=a.get("f", []), used=a.get("used", 0))
        elif q.startswith("lcs"):
            e.update(ok=a.get("done") == q.count("@"), got=a.get("got", []))
        else:
            e.update(ok=a.get("ok", False), got=a.get("got" if q.startswith("wrrec") else "file", []))
        if a.get("skipped"):
            e["k"] = "skipped"
    tr, keep = [], []
    for t in traces:
        ev = [e for e in t["ev"] if e["k"] != "skipped"]
        for k in range(0, len(ev), 200):
            keep.append([e.pop("req") for e in ev[k:k + 200]])
            tr.append(dict(t, ev=ev[k:k + 200]))
    c.notes["cases"] = {"records": len(recs), "command_sequences": len(seqs), "objects": sum(t["ty"] == "object" for t in traces),
                        "failures_injected": len(reqs)}
    c.validate("TraceTap", tr, "SPECIFICATION Spec\nINVARIANT Conforms\n", lambda i: {"harness": keep[i]})


def spoil(r, b):
    """bytes near these"""
    b = list(b)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k, i = r.random(), r.randrange(len(b))
        if k < 0.3:
            b[i] ^= 1 << r.randrange(8)
        elif k < 0.5:
            b[i] = r.choice((0, 1, 0x7f, 0x80, 0xff, 0x20, r.randrange(256)))
        elif k < 0.7:
            i = i // 4 * 4
            b[i:i + 4] = r.choice(([0] * 4, [255] * 4, b[i:i + 4][::-1], le(r.randrange(1 << 32), 4), le(1 << r.randrange(32), 4), le(r.randrange(64), 4)))
        elif k < 0.8:
            j = r.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        else:
            w = r.choice((1, 2, 4, 8))
            v = int.from_bytes(bytes(b[i:i + w]), "little") + r.choice((1, -1, 8, -8, 80, -80, 256))
            b[i:i + w] = (v % (1 << (8 * len(b[i:i + w])))).to_bytes(len(b[i:i + w]), "little")
    return b


def c28(c):
    """bytes that encode nothing, and values that have no encoding"""
    exe = build_harness()
    rng, th = c.rng, c.thorough
    r = c.model("MCFits", "SPECIFICATION Spec\nCONSTANTS TYPES = %s\nBYTES = {%s}\nSEEDS = {%s}\nINVARIANTS Encoded Says Exactly\n"
                % (TYPES, "0, 1, 11, 32, 127, 255" if th else "0, 32, 127, 255", "0, 1, 2, 3" if th else "1, 2"))
    tr = [dict(p, k="rec") for p in printed(r.out)]
    nm = len(tr)
    enc = encode(c, [{"ty": ty, "f": rrec(rng, ty)} for ty in LAYOUT for _ in range(1500 if th else 150)])
    for p in enc:
        for o in ("le", "be"):
            tr.append({"k": "rec", "ty": p["ty"], "big": o == "be", "b": spoil(rng, p[o])})
            if rng.random() < 0.2:
                tr.append({"k": "rec", "ty": p["ty"], "big": o == "le", "b": p[o]})
            if rng.random() < 0.1:
                tr.append({"k": "rec", "ty": p["ty"], "big": o == "le", "b": [rng.randrange(256) for _ in p[o]]})
    # commands whose size is that of another number of entries, also beyond 32 bits
    for ty, n0, w, at in (("seg", 72, 80, 64), ("build", 24, 8, 20)):
        base = next(p for p in enc if p["ty"] == ty)
        for n in list(range(0, 20)) + [255, 256, 257, 65535, 65536, 0xccccccd >> 2, 0x3333333, 1 << 24, 1 << 26, 1 << 27, 1 << 28, 1 << 29, 1 << 30, 1 << 31,
                                       (1 << 29) + 1, (1 << 28) + 1, (1 << 32) - 1]:
            for d in (0, 0, w, -w, 1, -1, 4, n0, -n0, 1 << 16, 1 << 24, 1 << 31):
                for o in ("le", "be"):
                    b, order = list(base[o]), "big" if o == "be" else "little"
                    b[4:8] = ((n0 + w * n + d) % (1 << 32)).to_bytes(4, order)
                    b[at:at + 4] = n.to_bytes(4, order)
                    tr.append({"k": "rec", "ty": ty, "big": o == "be", "b": b})
    nr = len(tr)
    reqs = ["rdrec %s %s %s %d" % (p["ty"], "big" if p["big"] else "little", bytes(p["b"]).hex(), rng.choice((0, 0, 3))) for p in tr]
    # sequences of commands with a byte wrong, mostly in what tells them apart
    for p in encode(c, [{"ty": "stream", "cmds": [rcmd(rng) for _ in range(rng.randrange(1, 4))]} for _ in range(2500 if th else 250)]):
        for o in ("le", "be"):
            b, order, pos = list(p[o]), "big" if o == "be" else "little", 0
            heads = []
            for k in p["cmds"]:
                heads.append((pos, k))
                pos += CMD[k["k"]][1] + CMD[k["k"]][2] * len(k["sub"])
            h, k = rng.choice(heads)
            n, z = len(k["sub"]), CMD[k["k"]][1] + CMD[k["k"]][2] * len(k["sub"])
            x = rng.random()
            if x < 0.2:
                b[h:h + 4] = rng.choice((2, 11, 25, 50, 1, 0, 0x19 << 8, 0x1b, 0x24, 0x26, 0x2a, 0x80000000 | num(k["f"][0]), rng.randrange(256))).to_bytes(4, order)
            elif x < 0.4:
                b[h + 4:h + 8] = max(0, z + rng.choice((-80, -8, -4, -1, 1, 4, 8, 24, 72, 80, 1 << 16))).to_bytes(4, order)
            elif x < 0.8 and CMD[k["k"]][3]:
                m = max(0, n + rng.choice((-1, 1, 1, 2, -n)))
                at = h + (64 if k["k"] == "seg" else 20)
                b[at:at + 4] = m.to_bytes(4, order)
                if rng.random() < 0.6:
                    b[h + 4:h + 8] = (CMD[k["k"]][1] + CMD[k["k"]][2] * m).to_bytes(4, order)
            elif x < 0.9:
                b = spoil(rng, b)
            elif rng.random() < 0.5:
                b = b[:rng.randrange(len(b))]
            cnt = len(p["cmds"]) + 1
            tr.append({"k": "cmds", "b": b, "big": o == "be", "n": cnt})
            reqs.append("lcs r %s %d %s %d -" % (order, cnt, bytes(b).hex() or "-", rng.choice((0, 0, 5))))
    ns = len(tr)
    # values that do not fit their fields, among others that do
    for _ in range(3000 if th else 400):
        ty = rng.choice(("seg", "sect", "reloc"))
        f = rrec(rng, ty, 0)
        if ty == "reloc":
            if rng.random() < 0.6:
                f[1][0] = rnum(rng, 3) + [rng.choice((1, 2, 128, 255, rng.randrange(256)))]
            else:
                f[1][4] = [rng.choice((16, 17, 32, 128, 255, rng.randrange(16, 256)))]
        else:
            i = 2 if ty == "seg" else rng.randrange(2)
            f[i] = rng.choice(([97] * rng.choice((17, 18, 20, 24, 31, 32, 33, 64, 255, 256, 272)), [rng.randrange(1, 128) for _ in range(rng.randrange(15, 20))],
                               [97, 0, 98], [0], [97] * 15 + [0], [0, 97], [97] * 16 + [0], list("\u00e9".encode()), list(("a" * 14 + "\u00e9").encode()),
                               list(("a" * 15 + "\u00e9").encode()), list("\u3042\u3044".encode()), list(("\U0001f600" * 4).encode())))
        tr.append({"k": "write", "ty": ty, "f": f})
        reqs.append("rec %s %s" % (ty, args(ty, f)))
    nw = len(tr)
    for _ in range(4000 if th else 500):
        b = [0] + [x for _ in range(rng.randrange(0, 5)) for x in [rng.randrange(1, 128) for _ in range(rng.choice((0, 1, 3, 9)))] + [0]]
        if rng.random() < 0.5:
            k = rng.random()
            if k < 0.3:
                b = b[:-1] + ([rng.randrange(1, 128)] if rng.random() < 0.5 else [])
            elif k < 0.6:
                b = [rng.randrange(1, 128)] + b[rng.randrange(2):]
            else:
                b.insert(rng.randrange(len(b)), rng.choice((128, 255, 0xc3, 0, 200)))
            tr.append({"k": "table", "b": b})
            reqs.append("str v:" + bytes(b).hex())
        else:
            s = [rng.randrange(1, 128) for _ in range(rng.choice((0, 1, 3, 9)))]
            k = rng.random()
            if k < 0.5:
                s.insert(rng.randrange(len(s) + 1), 0)
            elif k < 0.8:
                s += list(rng.choice(("\u00e9", "\u3042", "\u0100", "\U0001f600", "\u0080", "\u00ff")).encode())
            tr.append({"k": "push", "b": b, "s": s})
            reqs.append("str v:%s p:%s" % (bytes(b).hex(), bytes(s).hex()))
    reps = run_harness(exe, reqs)
    keep = []
    for q, p, a in zip(reqs, tr, reps):
        if a.get("skipped"):
            continue
        if p["k"] == "rec":
            p["r"] = DEAD if a.get("crash") else a
        elif p["k"] == "cmds":
            p["evs"] = a.get("ev", [{"ok": False}])
        elif p["k"] == "write":
            p.update(wok=a.get("wok", False), back=a.get("back", DEAD), size=len(a.get("bytes", [])))
        else:
            e = a.get("ev", [{"e": "panic"}])[-1]
            p.update(ok=e["e"] != "panic", got=e.get("bytes", []))
        keep.append((q, p))
    c.notes["cases"] = {"records_from_model": nm, "records": nr - nm, "command_sequences": ns - nr, "values_written": nw - ns, "string_tables": len(tr) - nw}
    c.validate("TraceFits", [p for _, p in keep], "SPECIFICATION Spec\nINVARIANT Conforms\n", lambda i: {"harness": keep[i][0]})


def c27(c):
    """the library on a big-endian machine"""
    import p_obj, p_x64
    rng, th = c.rng, c.thorough
    exe = build_harness_big(c)
    if exe is None:  # the little-endian machine is left
        exe, host = build_harness(), "little"
    else:
        host = "big"
    k = 10 if th else 1
    # records: everything the model has, and random ones
    model = model_records(c)
    rows = [{"ty": p["ty"], "f": p["f"]} for p in (model if th else rng.sample(model, min(len(model), 200)))]
    rnd = [{"ty": ty, "f": rrec(rng, ty)} for ty in LAYOUT for _ in range(12 * k)]
    roundtrip(c, exe, rows + rnd, host)
    enc = encode(c, [{"ty": ty, "f": rrec(rng, ty)} for ty in LAYOUT for _ in range(10 * k)])
    enc += [dict(p, ty="header32", le=[0xce] + p["le"][1:], be=p["be"][:3] + [0xce] + p["be"][4:]) for p in enc if p["ty"] == "header"]
    streams = encode(c, [{"ty": "stream", "cmds": [rcmd(rng) for _ in range(rng.randrange(1, 4))]} for _ in range(12 * k)])
    orders(c, exe, enc, streams, host)
    command_streams(c, exe, [[rcmd(rng) for _ in range(rng.randrange(1, 5))] for _ in range(20 * k)])
    # instructions
    reqs = [p_x64.random_reg(rng) for _ in range(120 * k)] + [p_x64.random_mem(rng) for _ in range(120 * k)]
    p_x64.calls(c, exe, reqs)
    # objects
    objs = [p_obj.random_obj(rng, True) for _ in range(400 * k)]
    objs = [o for o in objs if len(o["syms"]) + len(o["relocs"]) + len(o["text"]) + len(o["data"]) < 200][:20 * k]
    p_obj.read_back(c, exe, objs)
    c.notes["machine"] = host + "-endian"
    c.notes["on_that_machine"] = {"records": len(rows) + len(rnd), "encodings_read": 2 * len(enc), "command_streams": 20 * k + 2 * len(streams),
                                  "instructions": len(reqs), "objects": len(objs)}


CHECKS = {"C28": c28, "C27": c27, "C26": c26, "C16": c16, "C17": c17, "C18": c18, "C22": c22}
