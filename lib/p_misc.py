"""C12 (layout), C13 (sessions), C19 (string tables), C21 (failing streams), C23 (byte strings), C24 (registers)"""
from common import *
import select
import stat
import tempfile
import gen_asm as G
import p_asm
import p_x64

CFG = "SPECIFICATION Spec\nINVARIANT Conforms\n"


# ------------------------------------------------------------------- C12
def split_quotes(line):
    """[(text, inside)] of a line without comment"""
    out, cur, q = [], "", False
    for ch in line:
        if ch == '"':
            if q:
                out.append((cur + ch, True))
                cur, q = "", False
                continue
            out.append((cur, False))
            cur, q = ch, True
        else:
            cur += ch
    out.append((cur, q))
    return out


def restyle(rng, text):
    """the same lines, laid out otherwise (the specification checks that it says the same)"""
    lv = rng.choice((0.1, 0.4, 0.9))
    blank = lambda: rng.choice((" ", "  ", "\t", "\t ", "   ", " \t"))
    out = []
    for line in text.rstrip("\n").split("\n"):
        s = ""
        for part, q in split_quotes(line):
            if q:
                s += part
                continue
            for ch in part:
                if ch == " ":
                    s += blank() if rng.random() < lv else " "
                elif ch == ",":
                    s += (blank() if rng.random() < lv * 0.6 else "") + "," + (blank() if rng.random() < lv * 0.6 else "")
                else:
                    s += ch
        if rng.random() < lv * 0.6:
            s = blank() + s
        if rng.random() < lv * 0.6:
            s += blank()
        if rng.random() < lv * 0.5:
            s += ";" + rng.choice(("", " c", "; x: mov", ' "', ' "a" "', " db 1,2", "\t", "section .data", " \u3042"))
        while rng.random() < lv * 0.3:
            out.append(rng.choice(("", " ", "\t", "; note", "  ;\"")))
        out.append(s)
    while rng.random() < lv * 0.3:
        out.append(rng.choice(("", " ", "; end")))
    k = rng.random()
    nl = "\n" if k < 0.4 else "\r\n"
    t = nl.join(out)
    if k > 0.8:  # mixed line ends
        t = "".join(l + rng.choice(("\n", "\r\n")) for l in out)
    elif rng.random() < 0.6:
        t += nl
    return t


def c12(c):
    exe = build_harness()
    th = c.thorough
    r = c.model("MCLayout", "SPECIFICATION Spec\nCONSTANTS BASES = {1, 2, 3, 4}\nMAXEDITS = %d\nINVARIANT SaysTheSame\n" % (2 if th else 1))
    bases = ['mov rax, 1 + 2\nx: ; c\npush rdi\n', 'section .data\nm db "a ;,", 0x10\nglobal m\n',
             'mov ebx, m\nm dw 1, "q"\nret\n', 'mov cx, dx\nbad line\nsyscall\n']
    pairs = []
    seen = set()
    for p in printed(r.out):
        k = (p["b"], bytes(p["s"]))
        if k not in seen:
            seen.add(k)
            pairs.append((bases[p["b"] - 1].encode(), k[1]))
    if th and len(pairs) > 30000:
        pairs = c.rng.sample(pairs, 30000)
    nm = len(pairs)
    for k in range(8000 if th else 1200):
        a = (G.with_bad_line(c.rng) if k % 6 == 0 else G.program(c.rng, style=0)).text()
        if k % 6 == 0:
            a = "".join(l + "\n" for l in a.replace("\r", "").rstrip("\n").split("\n"))
        if ";" in a.replace('";', ""):  # restyle() wants plain lines
            a = "".join(l + "\n" for l in (x.split(";")[0] if x.count('"') == 0 else x for x in a.split("\n")) if l)
        pairs.append((a.encode(), restyle(c.rng, a.replace("\r", "")).encode()))
    # long runs of blanks, long comments, many blank lines: past the sizes of buffers and counters
    ks = (120, 127, 128, 250, 255, 256, 1000, 1023, 1024, 2048, 4096, 8180, 8191, 8192, 8193, 16384)
    for k in ks + ((65535, 65536) if th else ()):
        base = "a:\nmov rax, a\nsection .data\nb db 1, \"x;y\"\npush 5\nret\n"
        ls = base.split("\n")
        for i in range(7):
            b = c.rng.choice(" \t")
            m = list(ls)
            m[i] = c.rng.choice((m[i] + b * k, b * k + m[i], m[i] + b * k + "; x", m[i] + ";" + b * k + "ret",
                                 m[i] + ";" + "c" * k, m[i] + "\n" * k, m[i] + ";" + " db 1" * (k // 5),
                                 re.sub(" ", b * k, m[i].replace('"x;y"', '""'), count=1) if i != 3 else m[i] + b * k))
            pairs.append((base.encode(), "\n".join(m).encode()))
    srcs = sorted(set(x for p in pairs for x in p))
    reps = dict(zip(srcs, run_harness(exe, [p_asm.asm_req(s) for s in srcs])))
    tr, keep = [], []
    for a, b in pairs:
        if reps[a].get("skipped") or reps[b].get("skipped"):
            continue
        one = lambda s: {k: v for k, v in p_asm.asm_trace(s, reps[s]).items() if k != "err"}
        tr.append({"a": one(a), "b": one(b)})
        keep.append((a, b))
    r = c.validate("TraceLayout", tr, CFG, lambda i: {"a": keep[i][0].decode(), "b": keep[i][1].decode()})
    st = printed(r.out)
    c.notes["pairs"] = {"from_model": nm, "random": len(pairs) - nm, "same": st.count("same"), "different": st.count("different")}
    if st.count("same") < 0.85 * len(st):
        raise ToolError("the pairs do not say the same: %s" % c.notes["pairs"])


# ------------------------------------------------------------------- C13
def session_events(text, ops, rep):
    """ops: [(feed, from, to) | (write,) | (new,) | (use, k)] and the reply -> events"""
    ev = []
    got = list(rep.get("ev", []))
    for k, op in enumerate(ops):
        if k < len(got) and got[k]["e"] != "panic":
            if op[0] == "feed":
                ev.append({"e": "feed", "b": list(text[op[1]:op[2]])})
            elif op[0] == "write":
                ev.append({"e": "write", "f": got[k]["file"]})
            elif op[0] == "use":
                ev.append({"e": "use", "n": op[1]})
            else:
                ev.append({"e": "new"})
        else:
            if op[0] == "feed":
                ev.append({"e": "feed", "b": list(text[op[1]:op[2]])})
            if rep.get("end") != "ok":
                ev.append({"e": "refused"})
            break
    ev.append({"e": "end"})
    return ev


def ops_text(ops, chunks):
    out = []
    for op, ch in zip(ops, chunks):
        out.append("F:%d:%d:%d:-" % (op[1], op[2], ch) if op[0] == "feed" else "W:%d:-" % ch if op[0] == "write" else
                   "S:%d" % op[1] if op[0] == "use" else "N")
    return " ".join(out)


def line_cuts(text):
    return [0] + [i + 1 for i, b in enumerate(text) if b == 10 and i + 1 < len(text)] + [len(text)]


def c13(c):
    exe = build_harness()
    th = c.thorough
    r = c.model("MCSession", "SPECIFICATION Spec\nCONSTANTS SLOTS = 1\nPIECES = 3\nMAXOPS = %d\nCHUNKS = {%s}\nINVARIANT Function\n" %
                (6 if th else 5, "0, 1, 7" if th else "0, 1"))
    scheds = printed(r.out)
    nm = len(scheds)
    cap = 12000 if th else 1500
    if nm > cap:
        scheds = c.rng.sample(scheds, cap)
    r = c.model("MCSession", "SPECIFICATION Spec\nCONSTANTS SLOTS = %d\nPIECES = 2\nMAXOPS = %d\nCHUNKS = {0}\nINVARIANT Function\n" %
                ((3, 6) if th else (2, 6)), name="MCSession/several")
    turns = printed(r.out)
    reqs, meta, traces = [], [], []
    n = 1200 if th else 150
    per = max(4, len(scheds) // n + 1)
    c.rng.shuffle(scheds)
    si = 0
    for k in range(n):
        w = {"movs": 0} if k % 3 == 0 else {"global": 3, "label": 4, "movs": 3}
        p = G.with_bad_line(c.rng) if k % 10 == 9 else G.program(c.rng, n=c.rng.choice((3, 5, 9, 14, 25)), w=w)
        text = p.text().encode()
        cuts = line_cuts(text)
        runs = [([("feed", 0, len(text)), ("write",)], [0, 0])]
        runs.append(([("feed", 0, len(text)), ("write",), ("write",)], [1, 1, 2]))
        for _ in range(per):  # schedules of the model, over this text cut into three pieces at line ends
            s = scheds[si % len(scheds)]
            si += 1
            inner = sorted(c.rng.sample(cuts[1:-1], 2)) if len(cuts) > 3 else [cuts[1]] * 2
            pc = [0] + inner + [len(text)]
            ops, ch, pos = [], [], 0
            for o in s:
                if o["k"] == "feed":
                    ops.append(("feed", pc[pos], pc[pos + o["n"]]))
                    pos += o["n"]
                elif o["k"] == "new":
                    ops.append(("new",))
                    pos = 0
                else:
                    ops.append(("write",))
                ch.append(o["c"])
            runs.append((ops, ch))
        # line by line; random cuts and chunks
        runs.append(([("feed", a, b) for a, b in zip(cuts, cuts[1:])] + [("write",)], [0] * len(cuts)))
        if k % 15 == 0:  # one process that assembles over and over, and writes one object over and over
            m = 24
            ops = [("feed", 0, len(text)), ("write",), ("new",)] * m
            runs += [(ops, [0] * len(ops)), (ops[:1] + [("write",)] * m, [0] * (m + 1))]
        for _ in range(3):
            cs = sorted(set([0, len(text)] + c.rng.sample(cuts, min(len(cuts), c.rng.randrange(1, 6)))))
            ops = [("feed", a, b) for a, b in zip(cs, cs[1:])] + [("write",)]
            runs.append((ops, [c.rng.choice((0, 1, 2, 3, 5, 16, 64)) for _ in ops]))
        # several at work by turns, on this and on other texts
        others = [text] + [G.program(c.rng, n=c.rng.choice((2, 5, 9)), w={"global": 4, "label": 3, "movs": 2}).text().encode() for _ in "bc"]
        base = [0]
        for x in others:
            base.append(base[-1] + len(x))
        runs += [([("feed", base[j], base[j + 1]), ("write",)], [0, 0]) for j in (1, 2)]
        for s in c.rng.sample(turns, 24 if th else 10):
            pc = []
            for j, x in enumerate(others):
                q = line_cuts(x)
                pc.append([base[j], base[j] + (c.rng.choice(q[1:-1]) if len(q) > 2 else q[1]), base[j + 1]])
            ops, pos, cur = [], [0] * len(others), 1
            for o in s:
                j = o["a"] - 1
                if o["a"] != cur:
                    ops.append(("use", o["a"]))
                    cur = o["a"]
                if o["k"] == "feed":
                    ops.append(("feed", pc[j][pos[j]], pc[j][pos[j] + o["n"]]))
                    pos[j] += o["n"]
                elif o["k"] == "new":
                    ops.append(("new",))
                    pos[j] = 0
                else:
                    ops.append(("write",))
            runs.append((ops, [0] * len(ops)))
        text = b"".join(others)
        meta.append((text, runs))
        reqs += ["asm %s %s" % (text.hex() or "-", ops_text(*x)) for x in runs]
    tiny = b"a:\nmov rax, a\ndb 7\n"
    ops = [("feed", 0, len(tiny)), ("write",), ("new",)] * 300
    runs = [(ops, [0] * len(ops)), (ops[:1] + [("write",)] * 300, [0] * 301)]
    meta.append((tiny, runs))
    reqs += ["asm %s %s" % (tiny.hex(), ops_text(*x)) for x in runs]
    # long texts (longer than any buffer), with long lines, a few ways
    for lines in (200, 3000) + ((20000,) if th else ()):
        ls = []
        for i in range(lines):
            k = c.rng.choice((0, 3, 10, 30, 60))
            ls.append(c.rng.choice(("ret", "push %d" % i, "l%d:" % i, "section .data", "section .text", "global l%d" % i,
                                    'db "%s"' % ("x" * k), "; " + "c" * k, "mov rax, %d" % i)))
            if c.rng.random() < 0.005:
                ls.append("; " + " " * c.rng.choice((4095, 8191, 8192, 9000)) + "ret")
        big = ("\n".join(ls) + "\n").encode()
        cuts = line_cuts(big)
        runs = [([("feed", 0, len(big)), ("write",)], [ch, ch]) for ch in (0, 7, 4096, 8191, 8192, 65536)]
        for _ in range(4):
            cs = sorted(set([0, len(big)] + c.rng.sample(cuts, c.rng.randrange(1, 6))))
            runs.append(([("feed", a, b) for a, b in zip(cs, cs[1:])] + [("write",)], [c.rng.choice((0, 64, 4096)) for _ in range(len(cs))]))
        meta.append((big, runs))
        reqs += ["asm %s %s" % (big.hex(), ops_text(*x)) for x in runs]
    big = "\n".join(G.program(c.rng, n=30, w={"label": 0, "movs": 0, "global": 0, "data": 5}, nlabels=0).text() for _ in range(12))
    big = big.replace("section .bss", "section .data").encode()
    cuts = line_cuts(big)
    runs = [([("feed", 0, len(big)), ("write",)], [ch, ch]) for ch in (0, 1, 3, 4096, 8192)]
    mid = cuts[len(cuts) // 2]
    runs.append(([("feed", 0, mid), ("feed", mid, len(big)), ("write",)], [0, 0, 0]))
    meta.append((big, runs))
    reqs += ["asm %s %s" % (big.hex(), ops_text(*x)) for x in runs]
    reps = run_harness(exe, reqs)
    k = 0
    keep = []
    for text, runs in meta:
        rr = reps[k:k + len(runs)]
        rq = reqs[k:k + len(runs)]
        k += len(runs)
        ev = [session_events(text, ops, rep) for (ops, _), rep in zip(runs, rr) if not rep.get("skipped")]
        if ev:
            traces.append({"runs": ev})
            keep.append(rq)
    c.notes["sessions"] = {"schedules_in_model": nm, "processes": len(reqs), "texts": len(meta),
                           "writes": sum(e["e"] == "write" for t in traces for x in t["runs"] for e in x),
                           "refusals": sum(e["e"] == "refused" for t in traces for x in t["runs"] for e in x)}
    c.validate("TraceSession", traces, "SPECIFICATION Spec\nCONSTANT SLOTS = 3\nINVARIANT Conforms\n", lambda i: {"harness": keep[i]})


# ------------------------------------------------------------------- C19
def str_req(ops):
    f = []
    for o in ops:
        h = lambda b: bytes(b).hex() or ""
        f.append({"push": lambda: "p:" + h(o["s"]), "from": lambda: "v:" + h(o["v"]), "new": lambda: "n",
                  "get": lambda: "g:%d" % o["i"], "iter": lambda: "i"}[o["e"]]())
    return "str " + " ".join(f)


def queries(rng, ops):
    """the operations with look-ups of everything added so far in between"""
    out, offs, ln, n = [], [], 1, 0
    for o in ops:
        out.append(o)
        if o["e"] == "new":
            offs, ln = [], 1
        elif o["e"] == "from":
            b, offs = o["v"], []
            for i in range(1, len(b)):
                if b[i - 1] == 0:
                    offs.append(i)
            ln = len(b)
        else:
            offs.append(ln)
            ln += len(o["s"]) + 1
        if len(ops) > 40 and rng.random() > 40 / len(ops) and o is not ops[-1]:
            continue
        out += [{"e": "get", "i": i} for i in [0] + (offs if len(offs) < 12 else rng.sample(offs, 12))]
        out.append({"e": "iter"})
    return out


def c19(c):
    exe = build_harness()
    th = c.thorough
    r = c.model("MCStr", "SPECIFICATION Spec\nCONSTANTS STRS = {%s}\nMAXOPS = %d\nINVARIANTS Found EmptyAtZero Shape Iteration\nPROPERTY Stable\n"
                % ("0, 1, 2, 3, 4" if th else "0, 1, 2, 3", 4 if th else 3))
    hist = printed(r.out)
    nm = len(hist)
    if nm > 40000:
        hist = c.rng.sample(hist, 40000)
    ch = [x for x in range(1, 128)]
    for _ in range(6000 if th else 600):
        ops = []
        for _ in range(c.rng.choice((1, 2, 3, 5, 8, 20, 40))):
            k = c.rng.random()
            s = lambda: [c.rng.choice(ch) for _ in range(c.rng.choice((0, 1, 2, 3, 7, 16, 60)))]
            if k < 0.9:
                prev = [o["s"] for o in ops if o["e"] == "push"]
                x = s() if c.rng.random() < 0.7 or not prev else c.rng.choice(prev)[c.rng.choice((0, 0, 1)):]
                ops.append({"e": "push", "s": x})
            elif k < 0.97:
                ops.append({"e": "from", "v": [0] + [b for _ in range(c.rng.randrange(4)) for b in s() + [0]]})
            else:
                ops.append({"e": "new"})
        hist.append(ops)
    S = lambda n: [c.rng.choice(ch) for _ in range(n)]
    P = lambda n: {"e": "push", "s": S(n)}
    for n in (126, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 5000):  # long strings, long tables
        hist.append([P(n), P(3), P(n), P(0), P(n + 1), P(2)])
        hist.append([{"e": "from", "v": [0] + S(n) + [0] + S(2) + [0]}, P(n), P(1)])
    for n in (127, 128, 255, 256, 257, 600):  # many strings
        hist.append([P(c.rng.choice((0, 1, 2, 5))) for _ in range(n)])
    hist.append([P(1 << 12) for _ in range(15)] + [P(4090), P(1), P(0), P(5), P(3)])  # beyond 64 KB
    for n in (32767, 65533, 65535, 65536, 70000):
        hist.append([P(n), P(1), P(2)])
    hist = [queries(c.rng, ops) for ops in hist]
    reqs = [str_req(h) for h in hist]
    reps = run_harness(exe, reqs)
    keep = [(q, rep) for q, rep in zip(reqs, reps) if not rep.get("skipped")]
    tr = [{"ev": rep.get("ev", [{"e": "panic"}])} for _, rep in keep]
    c.notes["histories"] = {"from_model": nm, "random": len(hist) - nm}
    c.validate("TraceStr", tr, "SPECIFICATION Spec\nVIEW View\nINVARIANTS Conforms Model\n", lambda i: {"harness": keep[i][0]})


# ------------------------------------------------------------------- C21
def c21(c):
    exe = build_harness()
    th = c.thorough
    c.model("Sink", "SPECIFICATION Spec\nCONSTANTS N = %d\nCHUNKS = {0, 1, 2, 3}\nINVARIANTS NoFalseSuccess Fails Prefix\n" % (12 if th else 7))
    traces, replay = [], []
    texts = ["ret\n", 'section .data\nm db "hello", 10\nsection .text\nglobal s\ns:\nmov rax, m\nret\n', "x:\n", "",
             "section .data\nmov rax, q\nmov ecx, q\nq dd 5\nsection .bss\nb:\nsection .text\nmov rbx, b\n"]
    texts += [G.program(c.rng, n=c.rng.choice((3, 8, 15)), w={"movs": 3}).text() for _ in range(60 if th else 8)]
    texts.append("\n".join(["section .data"] + ['l%d dq "%s"' % (i, "y" * (i % 90)) for i in range(250)] +
                           ["mov rax, l%d" % i for i in range(0, 250, 3)]) + "\n")
    for text in texts:
        b = text.encode()
        base = run_harness(exe, [p_asm.asm_req(text)])[0]
        fs = [e["file"] for e in base.get("ev", []) if e["e"] == "write"]
        if not fs:
            continue  # refusing a valid source is another property's business
        f = fs[0]
        reqs, kinds = [], []
        wpos = range(len(f) + 2) if len(f) < 3000 else sorted({0, 1, 31, 32, len(f) - 1, len(f), len(f) + 1} |
                                                              {c.rng.randrange(len(f)) for _ in range(150)})
        rpos = range(len(b) + 1) if len(b) < 3000 else sorted({0, 1, 4095, 4096, 8191, 8192, 8193, 16384, len(b) - 1, len(b)} |
                                                              {c.rng.randrange(len(b)) for _ in range(100)})
        rpos = [k for k in rpos if k <= len(b)]

        def add(kind, k, once, how):
            ch = c.rng.choice((0, 0, 1, 2, 3, 7, 16) if len(b) < 3000 else (0, 100, 4096, 8192))
            if kind == "write":
                reqs.append("asm %s F:0:%d:0:- W:%d:%s" % (b.hex() or "-", len(b), ch, how))
            else:
                reqs.append("asm %s F:0:%d:%d:%s W:0:-" % (b.hex() or "-", len(b), ch, how))
            kinds.append((kind, k, once))
        for k in wpos:  # the output fails at every byte, by errors of all kinds or by taking nothing, for good or once
            add("write", k, False, "e%d.%d.0" % (k, c.rng.randrange(13)))
            add("write", k, False, "z%d" % k)
            add("write", k, True, "e%d.%d.1" % (k, c.rng.randrange(14)))
        for k in rpos:  # the input fails at every byte
            add("read", k, False, "%d.%d.0" % (k, c.rng.choice((0, 1, 4))))
            add("read", k, False, "%d.%d.0" % (k, c.rng.randrange(13)))
            add("read", k, True, "%d.%d.1" % (k, c.rng.randrange(14)))
        reps = run_harness(exe, reqs)
        ev, rq = [], []
        for (kind, k, once), rep, q in zip(kinds, reps, reqs):
            if rep.get("skipped"):
                continue
            ws = [e for e in rep.get("ev", []) if e["e"] == "write"]
            last = (rep.get("ev") or [{}])[-1]
            e = {"k": kind, "limit": k, "once": once, "end": rep.get("end", "crash"), "code": rep.get("code", -1)}
            if kind == "write":
                e["got"] = ws[-1]["file"] if ws else last.get("file", [])
            else:
                e["files"] = [w["file"] for w in ws]
            ev.append(e)
            rq.append(q)
        traces.append({"file": f, "ev": ev})
        replay.append(rq)
    # the command itself
    cli = build_cli()
    d = workdir("c21")
    ev = []

    def cmd(what, fails, args, limit=None, old=None):
        # limit: the kernel refuses the bytes from there on (EFBIG, the signal being ignored)
        pre = [] if limit is None else ["prlimit", "--fsize=%d" % limit]
        p = subprocess.run(pre + [cli] + args, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                           restore_signals=False, env=dict(os.environ, RUST_BACKTRACE="0"))
        o = args[2]
        return {"k": "cmd", "what": what, "fails": fails, "code": p.returncode, "old": list(old or b""),
                "got": list(open(o, "rb").read()) if limit is not None and os.path.isfile(o) else []}
    for n, text in enumerate(texts[:4] + texts[5:(25 if th else 7)]):
        if "" == text:
            continue
        src = os.path.join(d, "s%d.asm" % n)
        open(src, "w").write(text)
        ev.append(cmd("output to a file", False, [src, "-o", os.path.join(d, "o")]))
        ev.append(cmd("output to a directory", True, [src, "-o", d]))
        ev.append(cmd("output into a missing directory", True, [src, "-o", os.path.join(d, "no", "o")]))
        # the disk is full after k bytes, for every k
        base = run_harness(exe, [p_asm.asm_req(text)])[0]
        fs = [e["file"] for e in base.get("ev", []) if e["e"] == "write"]
        if not fs:
            continue
        ks = range(len(fs[0]) + 2) if n < (8 if th else 2) else sorted(
            {0, 1, len(fs[0]) // 2, len(fs[0]) - 1, len(fs[0])} | {c.rng.randrange(len(fs[0])) for _ in range(20)})

        def one(k, old):
            o = os.path.join(d, "lim%d-%d" % (n, k))
            if old:
                open(o, "wb").write(old)
            e = cmd("disk full after %d bytes" % k, k < len(fs[0]), [src, "-o", o], k, old)
            if os.path.isfile(o):
                os.unlink(o)
            return e
        olds = [b"old contents" * 40 if c.rng.random() < 0.2 else None for _ in ks]
        with ThreadPoolExecutor(NPROC) as ex:
            mine = list(ex.map(one, ks, olds))
        traces.append({"file": fs[0], "ev": mine})
        replay.append({"source": text, "runs": [[e["what"], e["code"]] for e in mine]})
    traces += full_device(cli, texts[1])
    replay += [{"source": texts[1], "runs": [[e["what"], e["code"]] for e in t["ev"]]} for t in traces[len(replay):]]
    # the output is a pipe whose reader goes away after k bytes of many
    src = os.path.join(d, "large.asm")
    open(src, "w").write("section .data\n" + 'dq "%s"\n' % ("z" * 200) * 1500)
    for k in (0, 1, 5000, 70000):
        fifo = os.path.join(d, "fifo%d" % k)
        os.mkfifo(fifo)
        p = subprocess.Popen([cli, src, "-o", fifo], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             env=dict(os.environ, RUST_BACKTRACE="0"))
        try:
            got, seen, fd, code = b"", False, None, None
            end = time.time() + 30
            while fd is None and time.time() < end and p.poll() is None:
                try:
                    fd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
                except OSError:
                    time.sleep(0.01)
            while fd is not None and not (seen and len(got) >= k) and time.time() < end and p.poll() is None:
                if not select.select([fd], [], [], 0.05)[0]:
                    continue
                try:
                    x = os.read(fd, k - len(got)) if k else b"."
                    got, seen = got + x, seen or x != b""
                except BlockingIOError:
                    pass
                time.sleep(0.002)
            if fd is not None:
                os.close(fd)
            if seen:
                code = p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            code = None
        finally:
            p.kill()
            p.wait()
        if code is None:
            continue  # it did not write into the pipe
        ev.append({"k": "cmd", "what": "reader of the output gone after %d bytes" % k, "fails": True, "code": code, "got": [], "old": []})
    ev.append(cmd("input is a directory", True, [d, "-o", os.path.join(d, "o2")]))
    ev.append(cmd("input is missing", True, [os.path.join(d, "missing"), "-o", os.path.join(d, "o2")]))
    open(os.path.join(d, "bad.asm"), "wb").write(b"ret\n\xff\xfe\xff\n")
    ev.append(cmd("input is no text", True, [os.path.join(d, "bad.asm"), "-o", os.path.join(d, "o2")]))
    shutil.rmtree(d, ignore_errors=True)
    traces.append({"file": [], "ev": ev})
    replay.append(ev)
    c.notes["failures_injected"] = sum(len(t["ev"]) for t in traces)
    c.validate("TraceFault", traces, CFG, lambda i: {"runs": replay[i]})


def full_device(cli, text):
    """The command writes to a device that is full. It may replace the output by a new file, so it is given a link in a
    scratch directory, as a user who could not replace the device itself; such a replacement is no failing stream."""
    try:
        if not stat.S_ISCHR(os.stat("/dev/full").st_mode) or os.geteuid() != 0:
            return []
    except OSError:
        return []
    d = tempfile.mkdtemp(prefix="vh-full-")
    try:
        os.chmod(d, 0o777)
        shutil.copy(cli, os.path.join(d, "at-asm"))
        os.chmod(os.path.join(d, "at-asm"), 0o755)
        open(os.path.join(d, "s.asm"), "w").write(text)
        os.chmod(os.path.join(d, "s.asm"), 0o644)
        link = os.path.join(d, "full")
        os.symlink("/dev/full", link)

        def run(out):
            return subprocess.run([os.path.join(d, "at-asm"), os.path.join(d, "s.asm"), "-o", out], cwd=d, user=65534,
                                  group=65534, extra_groups=[], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  timeout=60, env={"RUST_BACKTRACE": "0"}).returncode
        if run(os.path.join(d, "o")) != 0 or not os.path.isfile(os.path.join(d, "o")):
            return []
        obj = list(open(os.path.join(d, "o"), "rb").read())
        code = run(link)
        kept = os.path.islink(link)
        got = [] if kept or not os.path.isfile(link) else list(open(link, "rb").read())
        return [{"file": obj, "ev": [{"k": "cmd", "what": "output to a full device", "fails": kept, "code": code,
                                      "got": got, "old": []}]}]
    except (OSError, subprocess.SubprocessError):
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------- C23
def c23(c):
    exe = build_harness()
    r = c.rng
    reqs, want = [], []
    CAPS = (1, 2, 3, 4, 5, 7, 8, 9, 15, 16)
    SZ = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}

    def one(kind=None, like=None):
        if like is not None and r.random() < 0.6:  # the same bytes, or nearly, maybe built otherwise
            b = list(like)
            if b and r.random() < 0.5:
                k = r.randrange(3)
                if k == 0:
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                elif k == 1:
                    b = b[:-1]
                else:
                    b = b + [0]
            b = b[:17]
            ks = ["arr", "mut"] + [k for k, n in SZ.items() if n == len(b)]
            kind = r.choice(ks)
        else:
            kind = kind or r.choice(("u8", "u16", "u32", "u64", "arr", "mut", "len"))
            n = SZ.get(kind, r.randrange(18))
            b = [0] * n if kind == "len" else [r.choice((0, 255, r.randrange(256))) for _ in range(n)]
        if kind in SZ:
            return "%s %d" % (kind, int.from_bytes(bytes(b), "little")), b
        if kind == "len":
            return "len %d" % len(b), b
        return "%s %s" % (kind, bytes(b).hex() or "-"), b
    for cap in CAPS:
        for kind in ("u8", "u16", "u32", "u64", "arr", "mut", "len"):
            for _ in range(60 if c.thorough else 12):
                x, xb = one(kind)
                y, yb = one(None, xb)
                reqs.append("bam %d %s %s" % (cap, x, y))
                want.append((cap, xb, yb))
        for n in range(1, cap + 1):  # strings that differ in one place
            for i in range(n):
                b = [r.randrange(256) for _ in range(n)]
                b2 = list(b)
                b2[i] ^= 1 << r.randrange(8)
                k1, k2 = r.choice(("arr", "mut")), r.choice(("arr", "mut"))
                reqs.append("bam %d %s %s %s %s" % (cap, k1, bytes(b).hex(), k2, bytes(b2).hex()))
                want.append((cap, b, b2))
        for n in range(18):
            b = [r.randrange(256) for _ in range(n)]
            reqs.append("bam %d arr %s mut %s" % (cap, bytes(b).hex() or "-", bytes(b).hex() or "-"))
            want.append((cap, b, b))
    reps = run_harness(exe, reqs)
    ev, rq = [], []
    bad = {"ok": False, "b": [], "len": 0, "empty": True}
    for q, (cap, xb, yb), rep in zip(reqs, want, reps):
        if rep.get("skipped"):
            continue
        ev.append({"k": "pair", "cap": cap, "x": dict(rep.get("x", bad), want=xb), "y": dict(rep.get("y", bad), want=yb),
                   "eq": rep.get("eq", False)})
        rq.append(q)
    # the encodings of instructions: those of the encoder's model, and random ones
    cfg = ('SPECIFICATION Spec\nCONSTANTS\n WHICH = "%s"\n DISPS = {0, 127, 128, 2147483647}\n IMMS = {0, 127, 128, 2147483647}\n'
           ' MEMREGS = {3, 12}\nINVARIANTS Bounded Faithful\n')
    qs = [q for w in ("reg", "mem") for q in printed(c.model("MCX64", cfg % w, name="MCX64/" + w).out)]
    if not c.thorough:
        qs = r.sample(qs, 6000)
    qs += [g(r) for _ in range(30000 if c.thorough else 1500) for g in (p_x64.random_reg, p_x64.random_mem)]
    lines = [p_x64.req_line(q) for q in qs]
    for q, rep in zip(lines, run_harness(exe, lines)):
        if not rep.get("skipped"):
            ev.append({"k": "inst", "ok": rep.get("ok", False), "b": rep.get("out", [])})
            rq.append(q)
    size = 100
    traces = [{"ev": ev[k:k + size]} for k in range(0, len(ev), size)]
    c.notes["events"] = {"pairs": len(reqs), "instructions": len(lines)}
    c.validate("TraceBytes", traces, CFG, lambda i: {"harness": rq[i * size:(i + 1) * size]})


# ------------------------------------------------------------------- C24
def c24(c):
    exe = build_harness()
    rep = run_harness(exe, ["regs"])[0]
    regs = rep.get("regs", [])
    if not regs:
        raise Violation("the registers cannot be listed", "regs")
    src = ["mov %s, 1\n" % e["name"] for e in regs]
    reps = run_harness(exe, [p_asm.asm_req(s) for s in src])
    rows = []
    for e, rp in zip(regs, reps):
        rows.append({"w": e["w"], "num": e["num"], "name": list(e["name"].encode()), "anyname": list(e["anyname"].encode()),
                     "wide": e["wide"], "files": [x["file"] for x in rp.get("ev", []) if x["e"] == "write"] if e["w"] != 8 else []})
    c.validate("TraceRegs", [{"regs": rows}], "SPECIFICATION Spec\nINVARIANTS Complete Conforms\n", lambda i: {"harness": ["regs"] + src})
    # the names in every operand position of the language, with random partners
    out = []
    for _ in range(400 if c.thorough else 60):
        ls = []
        for w, rs in ((64, [e["name"] for e in regs if e["w"] == 64]), (32, [e["name"] for e in regs if e["w"] == 32]),
                      (16, [e["name"] for e in regs if e["w"] == 16])):
            a, b = c.rng.choice(rs), c.rng.choice(rs)
            ls += ["mov %s, %s" % (a, b), "mov %s, %d" % (b, c.rng.randrange(60000))] + (["push " + a] if w == 64 else [])
        out.append("\n".join(ls) + "\n")
    p_asm.run_sources(c, out, ("content", "accept"), "TraceAsm")


CHECKS = {"C12": c12, "C13": c13, "C19": c19, "C21": c21, "C23": c23, "C24": c24}
