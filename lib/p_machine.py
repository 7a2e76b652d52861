"""C01: whole programs, linked and run (Machine.tla)"""
from common import *
import gen_asm as G
from p_asm import asm_req, asm_trace

PALETTES = {  # the same lists as in MCMachine.tla
    "machine": ["section .text", "section .data", "x:", "y dw 7", "mov rsi, x", "mov eax, y", "mov ax, 513", "push rsi",
                "push 200", "ret", "syscall", "mov rsp, rax"],
    "jumps": ["x:", "y:", "mov rdi, x", "mov rdi, y", "push rdi", "ret", "section .data", "section .text", "push rsp"],
}
ARGREGS = ["rdi", "rsi", "rdx", "r10", "r8", "r9"]


def program(rng, n=None):
    """a program with one straight path through .text, data elsewhere, system calls with pointers, and jumps made of
    push and ret"""
    p = G.Prog(rng, rng.choice((0, 0.2, 0.4)))
    names = rng.sample([x for x in G.NAMES if len(x) < 60], 14)
    code, data, lost = names[:4], names[4:12], names[12:]
    free_c, free_d = list(code), list(data)
    n = n or rng.choice((3, 5, 8, 12, 18, 25, 35))
    parts = {"data": 0}

    def text():
        p.add("section", ".text")

    if rng.random() < 0.5:
        text()
    if rng.random() < 0.9:
        c = free_c.pop()
        if rng.random() < 0.7:
            p.add("global", c)
        p.add(c + ":")
    sect = "text"
    for _ in range(n):
        p.noise()
        k = rng.choices(("movi", "movr", "movs", "push", "syscall", "ret", "label", "data", "jump", "bss", "global", "call"),
                        (6, 5, 6, 4, 2, 0.3, 1, 4, 0.6, 0.4, 0.4, 2))[0]
        if k in ("data", "bss"):
            if not free_d:
                continue
            d = free_d.pop()
            s = "bss" if k == "bss" else rng.choice(("data", "data", "data", "text")) if rng.random() < 0.2 else "data"
            if s == "text":
                continue
            p.add("section", "." + s)
            if s == "bss":
                p.add(d + ":")
            else:
                w = rng.choice(list(G.WIDTH))
                for _ in range(rng.choice((0, 0, 1))):
                    p.data(None, rng.choice(list(G.WIDTH)), [G.item(rng, "db")])
                if rng.random() < 0.3:
                    p.add(d + ":")
                    d = None
                p.data(d, w, [G.item(rng, w) for _ in range(rng.choice((1, 1, 2, 4)))])
                for _ in range(rng.choice((0, 0, 0, 2))):
                    w = rng.choice(list(G.WIDTH))
                    p.data(None, w, [G.item(rng, w)])
                if rng.random() < 0.15:  # an instruction among the data
                    p.mov(rng.choice(G.R64), rng.choice(names))
            text()
        elif k == "movi":
            w, rs = rng.choice(((64, G.R64), (32, G.R32), (16, G.R16)))
            r = rng.choice(rs)
            if "sp" in r and rng.random() < 0.8:
                r = rs[0]
            p.mov(r, p.expr(G.number(rng, 1 << w)))
        elif k == "movr":
            rs = rng.choice((G.R64, G.R64, G.R32, G.R16))
            a = rng.choice(rs)
            if "sp" in a and rng.random() < 0.8:
                a = rs[-1]
            p.mov(a, rng.choice(rs))
        elif k == "movs":
            a = rng.choice(rng.choice((G.R64, G.R64, G.R32)))
            if "sp" in a and rng.random() < 0.8:
                a = "rsi"
            p.mov(a, rng.choice(code + data))
        elif k == "push":
            p.add("push", rng.choice(G.R64) if rng.random() < 0.5 else G.spell(rng, G.number(rng, 1 << 32)))
        elif k == "label" and free_c:
            p.add(free_c.pop() + ":")
        elif k == "jump" and len(free_c) > 0:
            r = rng.choice([x for x in G.R64 if x != "rsp"])
            c = free_c.pop()
            p.mov(r, c)
            p.add("push", r)
            p.add("ret")
            if rng.random() < 0.5:
                p.mov(rng.choice(G.R64), "1")
            p.add(c + ":")
        elif k == "call":
            for a in rng.sample(ARGREGS, rng.choice((1, 2, 3))):
                q = rng.random()
                if q < 0.6:
                    p.mov(a, rng.choice(data + code))
                elif q < 0.75:
                    p.mov(G.R32[G.R64.index(a)], rng.choice(data + code))
                else:
                    p.mov(a, p.expr(G.number(rng, 1 << 64)))
            p.mov("rax", p.expr(rng.choice((1, 60, 0x2000004, 0x2000001))))
            p.add("syscall")
        elif k == "global":
            p.add("global", rng.choice(names))
        elif k in ("syscall", "ret"):
            p.add(k)
    if rng.random() < 0.5:
        p.add("ret")
    rng.shuffle(free_d)
    for c in free_c:
        p.add(c + ":")
    p.add("section", ".data")
    for d in free_d:
        if rng.random() < 0.3:
            p.add(d + ":")
        else:
            w = rng.choice(list(G.WIDTH))
            p.data(d, w, [G.item(rng, w) for _ in range(rng.choice((1, 2, 3)))])
    return p


def blob(rng, size):
    """data lines of that many bytes"""
    ls, n = [], 0
    while n < size:
        m = min(rng.choice((250, 248, 240, 96)), size - n)
        ls.append('%s "%s"' % ("dq" if m % 8 == 0 else "db", "".join(rng.choice("abcdefgh ;,") for _ in range(m))))
        n += m
    return ls


def big(rng, deep=False):
    """programs whose sections, symbol and relocation tables pass the sizes at which counters and fields end"""
    out = []
    call = lambda a, x: ["mov %s, %s" % (a, x), "mov rax, 1", "syscall"]
    reg = lambda: rng.choice([x for x in G.R64 + G.R32 if "sp" not in x])
    for k in (100, 250, 32740, 32760, 65500, 65528, 70000) + ((131072, 200000) if deep else ()):
        # data far into .data, code far into .text (reached by push and ret), both
        out.append(["s:"] + call("rsi", "m") + call("rdx", "n") + ["ret", "section .data", "n dw 7, 8"] + blob(rng, k) +
                   ["m db \"here\", 0", "section .bss", "z:", "section .text", "e:"] + call("rdi", "z") + call("r8", "m"))
        out.append(["s:", "mov rcx, f", "push rcx", "ret"] + blob(rng, k) + ["f:"] + call("rsi", "m") + ["mov %s, s" % reg(), "ret",
                    "section .data", "m dq 5, \"abc\"", "section .text", "e:"] + call("r9", "m") + ["mov %s, f" % reg()])
        out.append(["section .data"] + blob(rng, k) + ["a:", "section .text"] + blob(rng, rng.choice((3, k))) + ["s:"] + call("rsi", "a") +
                   ["push 5", "mov eax, b", "section .data", "b dd 9", "section .text", "e:"] + call("r10", "b"))
    for k in (127, 128, 255, 256, 257, 700):  # labels
        ls = ["s:"]
        for i in range(k):
            ls += ["section .data", "l%d %s %d" % (i, rng.choice(list(G.WIDTH)), i % 256)]
        ls += ["section .text", "t:"]
        for i in rng.sample(range(k), 12) + [k - 1, 0]:
            ls += call(rng.choice(ARGREGS), "l%d" % i)
        out.append(ls)
        ls = ["s:"] + ["mov %s, m" % reg() for _ in range(k - 1)] + ["e:"] + call("rsi", "m") + call("rdi", "n") + \
             ["section .data", "n db 1", "m dw 2"]
        out.append(ls)
    for k in (15, 16, 17, 63, 64, 255, 256, 1024):  # names
        x = "n" * k
        out.append([x + ":"] + call("rsi", x + "a") + call("rdx", "b" + x) + ["section .data", "b%s db 1, 2" % x, x + "a db 3, 4"])
    return ["\n".join(ls) + "\n" for ls in out]


def shipped():
    d = os.path.join(REPO, "at-asm", "tests")
    return [open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith(".s")]


def model(c, palette, n):
    r = c.model("MCMachine", 'SPECIFICATION Spec\nCONSTANTS PALETTE="%s" MAXLINES=%d\nINVARIANT Simulates\n' % (palette, n),
                name="MCMachine/%s/%d" % (palette, n))
    return ["\n".join(PALETTES[palette][i - 1] for i in p) + "\n" for p in
            (json.loads(x) for x in sorted(set(json.dumps(q) for q in printed(r.out))))]


def run(c, sources, name, layouts, steps=60):
    exe = build_harness()
    reps = run_harness(exe, [asm_req(s) for s in sources])
    keep = [(s, asm_trace(s, r)) for s, r in zip(sources, reps) if not r.get("skipped")]
    r = c.validate("TraceMachine", [t for _, t in keep],
                   "SPECIFICATION Spec\nCONSTANTS STEPS=%d LAYOUTS={%s}\nINVARIANT Conforms\nVIEW View\n" % (steps, layouts),
                   lambda i: {"source": keep[i][0], "run": "VERIF harness: " + asm_req(keep[i][0])}, name=name)
    ps = printed(r.out)
    ends = {}
    for p in ps:
        ends[p["k"]] = ends.get(p["k"], 0) + 1
    c.notes.setdefault("runs_end", {})[name] = ends
    c.notes["instructions_executed"] = c.notes.get("instructions_executed", 0) + sum(p["n"] for p in ps)
    c.notes["system_calls"] = c.notes.get("system_calls", 0) + sum(p["sys"] for p in ps)
    return ps


def c01(c):
    model_src = model(c, "machine", 4 if not c.thorough else 5) + model(c, "jumps", 4 if not c.thorough else 6)
    c.rng.shuffle(model_src)
    ms = model_src[:4000 if not c.thorough else 40000]
    a = run(c, ms, "TraceMachine/model", "0")
    rnd = shipped() + [program(c.rng).text() for _ in range(700 if not c.thorough else 8000)]
    b = run(c, rnd, "TraceMachine/programs", "0, 1" if not c.thorough else "0, 1, 2, 3")
    run(c, big(c.rng, c.thorough), "TraceMachine/big", "0, 1" if not c.thorough else "0, 1, 2, 3")
    if c.notes["system_calls"] < 500 or sum(p["n"] for p in b) < 3000:
        raise ToolError("the programs run too little: %s" % c.notes)


CHECKS = {"C01": c01}
