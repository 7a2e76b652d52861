"""C04..C11: the assembler against Asm.tla"""
from common import *
import gen_asm as G

PALETTES = {  # the same lists as in MCAsm.tla
    "sections": ["section .text", "section .data", "section .bss", "x:", "mov rax, x", "mov ebx, x", "dd 7", "push 5",
                 "y db 1", "mov rdx, y"],
    "labels": ["section .text", "section .data", "section .bss", "a:", "b:", "c dw 3", "ret", "global a", "global c",
               "mov rax, a"],
    "errors": ["ret", "mov rax, x", "x:", "foo", "section .data", "section .bss", "db 256", 'dd "abc', "ret 5",
               "; comment", "global x", "mov ax, x"],
}


def asm_req(src, ops="F:0:%d:0:- W:0:-"):
    b = src.encode() if isinstance(src, str) else bytes(src)
    return "asm %s %s" % (b.hex() or "-", ops.replace("%d", str(len(b))))


def asm_trace(src, rep):
    b = src.encode() if isinstance(src, str) else bytes(src)
    return {"src": list(b), "end": rep.get("end", "crash"), "code": rep.get("code", -1),
            "err": list(rep.get("err", "").encode()),
            "files": [e["file"] for e in rep.get("ev", []) if e["e"] == "write"]}


def model_programs(c, palette, maxlines):
    cfg = ('SPECIFICATION Spec\nCONSTANTS PALETTE="%s" MAXLINES=%d\n'
           'INVARIANTS Faithful Recovered Once NoObject\nPROPERTY AppendOnly\n' % (palette, maxlines))
    r = c.model("MCAsm", cfg, name="MCAsm/%s/%d" % (palette, maxlines))
    ps = printed(r.out)
    taken = set(a for p in ps for a in p["a"])
    want = {"section", "global", "label", "data", "inst"} if palette == "labels" else \
           {"empty", "section", "global", "label", "inst", "refuse"} if palette == "errors" else \
           {"section", "label", "data", "inst", "refuse"}
    if not want <= taken:
        raise ToolError("vacuous model %s: %s" % (palette, sorted(want - taken)))
    return ["\n".join(PALETTES[palette][i - 1] for i in p["p"]) + "\n" for p in ps]


def run_sources(c, sources, aspects, name, sel=None):
    exe = build_harness()
    reps = run_harness(exe, [asm_req(s) for s in sources])
    keep = [(s, asm_trace(s, r)) for s, r in zip(sources, reps) if not r.get("skipped")]
    out = {}
    for s, t in keep:
        out[t["end"]] = out.get(t["end"], 0) + 1
    c.notes["outcomes"] = out
    r = c.validate("TraceAsm", [t for _, t in keep],
               "SPECIFICATION Spec\nCONSTANT ASPECTS = {%s}\nINVARIANT Conforms\nVIEW View\n" %
               ", ".join('"%s"' % a for a in aspects),
               lambda i: {"source": keep[i][0], "run": "VERIF harness: " + asm_req(keep[i][0])}, name=name)
    if r is None:  # as part of C30
        return
    st = printed(r.out)
    c.notes["specified_as"] = {k: st.count(k) for k in set(st)}
    if st.count("unspec") * 3 > len(st) or len(st) < len(keep):
        raise ToolError("too little is specified: %s" % c.notes["specified_as"])


def mix(c, rng, n, w, **kw):
    return [G.program(rng, w=w, **kw).text() for _ in range(n)]


def check(aspects, palette, gen, nq, nt):
    def f(c):
        n = nt if c.thorough else nq
        src = model_programs(c, palette, 4 if c.thorough else 3) if palette else []
        nm = len(src)
        rnd = gen(c, n) + G.scale(c.rng, "report" in aspects or c.thorough)
        c.notes["sources"] = {"from_model": nm, "generated": len(rnd)}
        run_sources(c, src + rnd, aspects, "TraceAsm")
    return f


def gen_c04(c, n):
    r = c.rng
    out = mix(c, r, n, {"movs": 8, "label": 3, "movi": 3})
    for regs in (G.R64, G.R32):  # every register, after every start offset
        for i in range(16):
            pre = r.choice((["ret"], ["push rax"], ["syscall"], ["mov rax, 1"], ["mov ax, 1"], ["push 1000"], []))
            out.append("\n".join(pre + ["mov %s, z" % regs[i]] + ["z:"]) + "\n")
            out.append("\n".join(["section .data"] + pre + ["mov %s, z" % regs[i]] + ["section .text", "z:", "ret"]) + "\n")
    # many symbols: symbol indices beyond one byte
    names = ["s%d" % i for i in range(300)]
    out.append("\n".join([x + ":" for x in names] + ["mov %s, %s" % (r.choice(G.R64), x) for x in r.sample(names, 40)]) + "\n")
    out.append("\n".join(["mov %s, %s" % (r.choice(G.R32), x) for x in r.sample(names, 40)] + ["section .data"] +
                         [x + " db 1" for x in names]) + "\n")
    # relocations far into a section
    out.append("\n".join(['dq "%s"' % ("x" * 250)] * 3 + ["mov rax, q", "mov r9d, q", "q:"]) + "\n")
    return out + G.near_sources(r)


def gen_c05(c, n):
    return mix(c, c.rng, n, {"section": 6, "data": 5})


def gen_c06(c, n):
    r = c.rng
    out = mix(c, r, n, {"label": 8, "section": 4, "data": 4}, nlabels=14)
    out += mix(c, r, n // 4, {"label": 8, "section": 6, "data": 0, "movi": 0, "movr": 0, "movs": 0, "push": 0, "ret": 0,
                              "syscall": 0}, nlabels=8)
    out.append("\n".join("l%d:%s" % (i, "\nret" * (i % 3)) for i in range(280)) + "\n")
    return out + G.near_sources(r)


def gen_c07(c, n):
    return mix(c, c.rng, n, {"global": 6, "label": 5, "section": 3}, nlabels=7)


def gen_c08(c, n):
    r = c.rng
    out = []
    for _ in range(n):
        p = G.program(r, n=r.choice((1, 2, 4)), w={"data": 0})
        for _ in range(r.choice((1, 2, 4))):
            d = r.choice(list(G.WIDTH))
            p.data(None, d, [G.item(r, d, 0.5) for _ in range(r.choice((1, 2, 3, 5, 9)))])
        p.lines.insert(r.randrange(2), "section .data")
        out.append("section .text\n" + p.text())
    out += [G.context(G.bad_data(r)) for _ in range(n // 6)]
    for d, w in G.WIDTH.items():
        # every string length to beyond two units; every printable byte; every edge value, good or not
        out.append("\n".join("%s \"%s\"" % (d, "abcdefghijklmnopqrstuvwxyz"[:k]) for k in range(20)) + "\n")
        out.append("\n".join("%s \"%s\", 1" % (d, "abcdefghijklmnopqrstuvwxyz"[:k]) for k in range(20)) + "\n")
        for ch in range(128):
            if ch not in (10, 34):
                out.append('section .data\nl %s "%s", "x%sy", 7\n' % (d, chr(ch), chr(ch)))
        for e in G.EDGES:
            out.append("%s %d\n" % (d, e))
            out.append("%s 0x%x, 1\n" % (d, e))
        for k in range(8 * w):
            out.append("%s %d, %d\n" % (d, 1 << k, (1 << k) - 1))
        out.append("%s %d\n" % (d, 1 << (8 * w)))
        out.append("%s 1, %d\n" % (d, 1 << 64))
        out.append("%s 1, %d, 2\n" % (d, (1 << 8 * w) + r.getrandbits(8)))
    return out


def gen_c09(c, n):
    r = c.rng
    out = []
    # every edge value as literal, in every place for a number
    for e in G.EDGES + [1 << 64, (1 << 64) + 1, 10 ** 20, 1 << 65, 1 << 68]:
        for lit in (str(e), "0x%x" % e, "0x%X" % e, "000" + str(e)):
            for rg in (r.choice(G.R64), r.choice(G.R32), r.choice(G.R16)):
                out.append("mov %s, %s\n" % (rg, lit))
            out.append("push %s\n" % lit)
    for k in range(0, 34):
        out.append("push %d\npush %d\n" % ((1 << k) % (1 << 32), ((1 << k) - 1) % (1 << 32)))
    for v in list(range(0, 300)):
        out.append("push %d\nmov %s, %d\n" % (v, r.choice(G.R16 + G.R32 + G.R64), v))
    # sums and differences, mostly in range, often on an edge, one per line
    for _ in range(n):
        ls = []
        for _ in range(r.choice((1, 1, 3, 8))):
            p = G.Prog(r, r.choice((0, 0.4)))
            w, rs = r.choice(((64, G.R64), (32, G.R32), (16, G.R16)))
            k = r.random()
            if k < 0.6:
                p.mov(r.choice(rs), p.expr(G.number(r, 1 << w)))
            elif k < 0.85:
                a, b = (G.spell(r, G.number(r)) for _ in "ab")
                p.mov(r.choice(G.R64), a + p.sp() + r.choice("+-") + p.sp() + b)
            else:
                p.add("push", G.spell(r, G.number(r, 1 << 32)))
            ls += p.lines
        if r.random() < 0.15:  # one that should not fit
            w, rs = r.choice(((64, G.R64), (32, G.R32), (16, G.R16)))
            ls.append("mov %s, %s %s %s" % (r.choice(rs), G.spell(r, G.number(r)), r.choice("+-"), G.spell(r, G.number(r, 1 << w))))
        out.append("\n".join(ls) + "\n")
    nums = [l for l in G.VALID if re.search(r"[0-9]$", l) and l.startswith(("mov", "push"))]
    out += [G.context(G.mutant(r, r.choice(nums))) for _ in range(n // 8)]
    return out


def gen_c10(c, n):
    r = c.rng
    out = []
    for rs in (G.R64, G.R32, G.R16):  # all pairs of registers of equal width
        for a in rs:
            out.append("\n".join("mov %s, %s" % (a, b) for b in rs) + "\n")
        out.append("\n".join("mov %s, %d" % (a, 7 + i) for i, a in enumerate(rs)) + "\n")
    out.append("\n".join("push %s" % a for a in G.R64) + "\nret\nsyscall\n")
    for rs in (G.R64, G.R32):
        out.append("s:\n" + "\n".join("mov %s, s" % a for a in rs) + "\n")
    ALL = (G.R64, G.R32, G.R16, G.R8)
    for i, A in enumerate(ALL):  # different widths: refused
        for j, B in enumerate(ALL):
            if i != j:
                for a in A:
                    out.append("mov %s, %s\n" % (a, r.choice(B)))
    for a in G.R32 + G.R16 + G.R8:
        out.append("push %s\n" % a)
    out += G.near_sources(r) + G.other_sources(r)
    insts = [l for l in G.VALID if l.startswith(("mov", "push", "ret", "sys"))]
    out += [G.context(G.mutant(r, r.choice(insts))) for _ in range(n // 8)]
    out += mix(c, r, n, {"movi": 5, "movr": 8, "push": 4, "ret": 1, "syscall": 1, "data": 1, "label": 1})
    return out


def gen_c11(c, n):
    r = c.rng
    out = [G.with_bad_line(r).text() for _ in range(n)]
    out += [G.program(r).text() for _ in range(n // 3)]
    return out + G.spoilt(r, n // 3) + G.other_sources(r) + G.near_sources(r) + G.near_symbols(r, n // 10)


V = ("accept", "refuse")
CHECKS = {
    "C04": check(("relocs",), "sections", gen_c04, 4000, 40000),
    "C05": check(("content",), "sections", gen_c05, 4000, 40000),
    "C06": check(("symbols",), "labels", gen_c06, 4000, 40000),
    "C07": check(("external",), "labels", gen_c07, 4000, 40000),
    "C08": check(("content",) + V, None, gen_c08, 3000, 30000),
    "C09": check(("content",) + V, None, gen_c09, 4000, 40000),
    "C10": check(("content",) + V, None, gen_c10, 3000, 30000),
    "C11": check(V + ("report",), "errors", gen_c11, 5000, 50000),
}
