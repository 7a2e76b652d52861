"""Source generators for at-asm.  They only propose sources; what a source means is
decided by the specification (Source.tla, Asm.tla)."""
import re

R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
R32 = "eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d".split()
R16 = "ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w".split()
R8 = "al cl dl bl spl bpl sil dil r8b r9b r10b r11b r12b r13b r14b r15b".split()
NAMES = ["a", "b", "ab", "ba", "aa", "b_a", "_start", "start", "main", "_main", "x", "x.y", "foo", "foo2", "oo", "o",
         "text", "data", "bss", "sections", "globals", "mov1", "rax1", "db1", "ret_", "r16", "L0", "L1", "L10", "msg",
         "msg.len", "_", "__text", "a$b", "q?", "at@x", "A", "B", "Foo", "very_long_label_name_number_one_0123456789",
         "very_long_label_name_number_one_0123456789_", "n" * 200, "ff", "dead", "face", "c", "d", "e", "f", "be", "eaxx",
         "RAX", "Mov", "SECTION", "a.b.c", ".L1", "_ff", "ax1", "b.", "global_", "data_end", "r8x", "n" * 255,
         "n" * 256, "_a", "__a", "a_", "x0", "x00", "0x".replace("0", "o"), "syscall_", "pushq", "movabs", "L01", "L100"]
WIDTH = {"db": 1, "dw": 2, "dd": 4, "dq": 8}
EDGES = [0, 1, 2, 9, 10, 15, 16, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 32769, 65534, 65535,
         65536, 65537, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001,
         0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffe, 0xffffffffffffffff]
STRCHARS = ("\x01\r\x7f\x0babcxyzABCXYZ0189 ,;:'\\/%$#@!()[]{}<>=+-*&^~`|_.?" + "\t")


def number(rng, lim=None):
    if lim is None:
        lim = 1 << rng.choice((7, 8, 16, 31, 32, 63, 64))
    k = rng.random()
    if k < 0.4:
        c = [e for e in EDGES if e < lim]
        return rng.choice(c)
    if k < 0.6:
        return max(0, lim - 1 - rng.randrange(min(4, lim)))
    return rng.randrange(lim) >> rng.randrange(lim.bit_length()) if k < 0.8 else rng.randrange(lim)


def spell(rng, v, style=True):
    """a literal for v"""
    z = "0" * rng.choice((0, 0, 0, 1, 3, 20)) if style else ""
    if rng.random() < 0.5:
        return z + str(v)
    h = "%x" % v
    h = "".join(rng.choice((c, c.upper())) for c in h) if style else h
    return "0x" + z + h


def string(rng, maxlen=20, plain=False):
    n = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, rng.randrange(maxlen + 1)))
    s = "".join(rng.choice(STRCHARS) for _ in range(n))
    if not plain and rng.random() < 0.1:
        s += rng.choice(("\u00e9", "\u3042", "\U0001f600", "\u00a0", "\u3000x"))
    return '"' + s + '"'


class Prog:
    """builds a source line by line, each line as a list of tokens with separators"""

    def __init__(self, rng, style=0.3):
        self.rng, self.style, self.lines = rng, style, []

    def sp(self, one=True):
        if self.rng.random() >= self.style:
            return " " if one else ""
        return self.rng.choice((" ", "  ", "\t", " \t ", "    ") if one else ("", " ", "\t", "  "))

    def add(self, *toks):
        self.lines.append(self.sp(False) * (self.rng.random() < 0.5) + self.sp().join(toks) + self.tail())

    def tail(self):
        r = self.rng
        t = self.sp(False) if r.random() < 0.3 else ""
        if r.random() < self.style * 0.5:
            t += self.sp(False) + ";" + r.choice(("", " comment", "; x", ' mov rax, "', " it's \"quoted\"", " db 1, 2",
                                                  "\t\u3042 \u00e9", ' "unclosed', "section .data", "a:"))
        return t

    def noise(self):
        r = self.rng
        if r.random() < self.style * 0.4:
            self.lines.append(r.choice(("", " ", "\t", "; comment", "  ; foo: bar", ";;", '; "', "   ")))

    def comma(self):
        return self.sp(False) * (self.rng.random() < 0.4) + "," + (self.sp() if self.rng.random() < 0.85 else "")

    def expr(self, v):
        r = self.rng
        if r.random() < 0.6:
            return spell(r, v)
        M = 1 << 64
        if r.random() < 0.5:
            a = r.choice((r.randrange(v + 1), r.getrandbits(64), v))
            return spell(r, a) + self.sp() + "+" + self.sp() + spell(r, (v - a) % M)
        a = r.choice((r.randrange(v, M), r.getrandbits(64), v, 0))
        return spell(r, a) + self.sp() + "-" + self.sp() + spell(r, (a - v) % M)

    def mov(self, a, b):
        self.add("mov", a + self.comma() + b)

    def data(self, label, d, items):
        self.add(*(([label] if label else []) + [d, self.comma().join(items)]))

    def text(self):
        r = self.rng
        nl = r.choice(("\n", "\n", "\r\n"))
        t = nl.join(self.lines)
        if self.lines and r.random() < 0.9:
            t += nl
        return t


def item(rng, d, strings=0.4):
    w = WIDTH[d]
    if rng.random() < strings:
        return string(rng)
    return spell(rng, number(rng, 1 << (8 * w)))


def program(rng, n=None, w=None, style=None, nlabels=None):
    """a valid program; w: weights of the line kinds"""
    W = {"section": 2, "global": 1, "label": 3, "data": 3, "movi": 2, "movr": 2, "movs": 2, "push": 1, "ret": 0.5,
         "syscall": 0.5}
    W.update(w or {})
    p = Prog(rng, rng.choice((0, 0.2, 0.5)) if style is None else style)
    n = n or rng.choice((1, 2, 3, 5, 8, 12, 20, 30))
    names = rng.sample(NAMES, min(len(NAMES), nlabels if nlabels is not None else rng.randrange(1, 9)))
    free = list(names)
    sect = "text"
    kinds, ws = list(W), list(W.values())
    used = False
    for _ in range(n):
        p.noise()
        k = rng.choices(kinds, ws)[0]
        if sect == "bss" and k not in ("section", "global", "label"):
            k = rng.choice(("section", "section", "label"))
        if k == "section":
            sect = rng.choice(("text", "data", "text", "data", "bss"))
            p.add("section", "." + sect)
        elif k == "global":
            p.add("global", rng.choice(names + ["never_defined"]))
        elif k == "label":
            if free:
                p.add(free.pop(rng.randrange(len(free))) + ":")
        elif k == "data":
            d = rng.choice(list(WIDTH))
            lab = free.pop(rng.randrange(len(free))) if free and rng.random() < 0.5 else None
            p.data(lab, d, [item(rng, d) for _ in range(rng.choice((1, 1, 1, 2, 3, 6)))])
        elif k == "movi":
            w_, rs = rng.choice(((64, R64), (32, R32), (16, R16)))
            p.mov(rng.choice(rs), p.expr(number(rng, 1 << w_)))
        elif k == "movr":
            rs = rng.choice((R64, R32, R16))
            p.mov(rng.choice(rs), rng.choice(rs))
        elif k == "movs":
            p.mov(rng.choice(rng.choice((R64, R64, R32))), rng.choice(names))
            used = True
        elif k == "push":
            p.add("push", rng.choice(R64) if rng.random() < 0.5 else spell(rng, number(rng, 1 << 32)))
        else:
            p.add(k)
    if used:  # define what is left, somewhere
        rng.shuffle(free)
        for f in free:
            if rng.random() < 0.5:
                sect = rng.choice(("text", "data", "bss", "data"))
                p.add("section", "." + sect)
            if sect != "bss" and rng.random() < 0.4:
                p.data(f, "db", [item(rng, "db")])
            else:
                p.add(f + ":")
    return p


def bad_line(rng, defined=("a",)):
    """a line that is likely to be invalid (the specification decides)"""
    r = rng
    big = lambda w: spell(r, (1 << w) + r.choice((0, 0, 1, r.getrandbits(8), r.getrandbits(w))))
    x64, y64, x32, x16, x8 = (r.choice(s) for s in (R64, R64, R32, R16, R8))
    other = r.choice(defined) if defined else "a"
    return r.choice((
        lambda: "foo", lambda: "foo bar", lambda: "add %s, %s" % (x64, y64), lambda: "MOV %s, 1" % x64,
        lambda: "mo v %s, 1" % x64, lambda: "movq %s, 1" % x64, lambda: "rets", lambda: "sys call",
        lambda: "section", lambda: "section .foo", lambda: "section text", lambda: "section .text .data",
        lambda: "section .TEXT", lambda: "sections .text", lambda: "global", lambda: "global a b", lambda: ".text",
        lambda: "mov", lambda: "mov " + x64, lambda: "mov %s," % x64, lambda: "mov %s, ," % x64, lambda: "mov , %s" % x64,
        lambda: "mov %s %s" % (x64, y64), lambda: "mov %s, %s, %s" % (x64, y64, x64), lambda: "mov 1, " + x64,
        lambda: "mov %s, %s" % (x64, x32), lambda: "mov %s, %s" % (x32, x64), lambda: "mov %s, %s" % (x16, x64),
        lambda: "mov %s, %s" % (x64, x16), lambda: "mov %s, %s" % (x16, x32), lambda: "mov %s, %s" % (x32, x16),
        lambda: "mov %s, 1" % x8, lambda: "mov %s, %s" % (x8, r.choice(R8)), lambda: "mov %s, %s" % (x16, x8),
        lambda: "mov %s, %s" % (x16, other), lambda: "mov %s, nowhere" % x64, lambda: "mov %s, nowhere" % x32,
        lambda: "mov %s, %s" % (x64, big(64)), lambda: "mov %s, %s" % (x32, big(32)), lambda: "mov %s, %s" % (x16, big(16)),
        lambda: "mov %s, 0 - 1" % x32, lambda: "mov %s, 0 - 1" % x16, lambda: "mov %s, 65535 + 1" % x16,
        lambda: "mov %s, 4294967295 + 1" % x32, lambda: "mov %s, 1 +" % x64, lambda: "mov %s, + 1" % x64,
        lambda: "mov %s, - 1" % x64, lambda: "mov %s, 1 + 2 + 3" % x64, lambda: "mov %s, 1 2" % x64,
        lambda: "mov %s, 1 * 2" % x64, lambda: "mov %s, 1 + %s" % (x64, y64), lambda: "mov %s, 1 + a" % x64,
        lambda: "mov %s, a + 1" % x64, lambda: "mov %s, %s %s" % (x64, y64, y64), lambda: "mov %s, 0x" % x64,
        lambda: "mov %s, 0xg" % x64, lambda: "mov %s, 12ab" % x64, lambda: "mov %s, 1_000" % x64,
        lambda: "mov %s, [%s]" % (x64, y64), lambda: "mov %s, -1" % x64, lambda: "mov %s, 1 + %s" % (x64, big(64)),
        lambda: "mov %s, 1 - -1" % x64, lambda: "mov %s, 0X10" % x64, lambda: "mov %s, 1 + 2 ret" % x64,
        lambda: "mov r16, 1", lambda: "mov rip, 1", lambda: "mov r8q, 1", lambda: "mov r08, 1", lambda: "mov r1, 1",
        lambda: "push", lambda: "push %s %s" % (x64, y64), lambda: "push %s, %s" % (x64, y64), lambda: "push 1 2",
        lambda: "push 1 + 2", lambda: "push " + x32, lambda: "push " + x16, lambda: "push " + x8, lambda: "push " + other,
        lambda: "push " + big(32), lambda: "push -1", lambda: "push 0x", lambda: "push " + big(64), lambda: "push 1,",
        lambda: "pop " + x64, lambda: "ret 1", lambda: "ret ret", lambda: "syscall 1", lambda: "syscall syscall",
        lambda: "ret,", lambda: "db", lambda: "lbl9 db", lambda: "db 256", lambda: "dw 65536", lambda: "dd 4294967296",
        lambda: "dq 18446744073709551616", lambda: "db " + big(8), lambda: "dw " + big(16), lambda: "dd " + big(32),
        lambda: "dq " + big(64), lambda: 'db "abc', lambda: 'db "', lambda: 'db "a", "b', lambda: "db 1, 2, 256",
        lambda: "db 'a'", lambda: "db a", lambda: "db rax", lambda: "db 1, x", lambda: "db -1", lambda: "dq -1",
        lambda: 'lbl9 dw 1, "ab", 65536', lambda: "dt 1", lambda: "lbl9 resb 1", lambda: "lbl9", lambda: "lbl9 : ret",
        lambda: "lbl9: ret", lambda: "lbl9: db 1", lambda: "lbl9 :", lambda: ":", lambda: "lbl9 equ 1", lambda: "db 0x100",
        lambda: 'dd 1 ; "', lambda: 'db 1;', lambda: '"abc"', lambda: "dw 0x10000", lambda: "dd 0x100000000",
        lambda: "%s:" % other, lambda: "%s db 1" % other, lambda: 'db 1, "x;y', lambda: "global ,a b", lambda: "db 1 + 1",
        lambda: "section .bss\nret", lambda: "section .bss\ndb 1", lambda: "section .bss\nbv9 dd 1",
        lambda: "section .bss\nmov %s, %s" % (x64, other), lambda: "mov rax", lambda: "1", lambda: "rax", lambda: "mov %s, +1" % x64,
        lambda: "mov %s, 1 + +1" % x64, lambda: "mov %s, 0x0x1" % x64, lambda: "push +1", lambda: "db +1", lambda: "dq 0x0x1",
        lambda: "mov %s, 0x+1" % x32, lambda: "dw 1, 0x+1", lambda: "push 0x0x10", lambda: "mov %s, 0x-1" % x64, lambda: "mov rax; , 1",
        lambda: "db ; 1",
    ))()


VALID = ["section .text", "section .data", "section .bss", "global a", "a:", "ret", "syscall", "push rax", "push r12", "push 5",
         "push 0x10", "mov rax, rbx", "mov eax, ebx", "mov ax, bx", "mov r9, r10", "mov r9d, r10d", "mov r9w, r10w", "mov rax, 5",
         "mov eax, 0x5", "mov ax, 5", "mov rcx, 5 + 6", "mov ecx, 6 - 5", "mov cx, 1 + 1", "mov rsi, a", "mov esi, a", "db 1",
         "dw 1, 2", "dd 0x1", "dq 1, 2, 3", 'db "s"', 'dw "s", 1', 'dd 1, "s"', 'dq "s", "t"', "c db 1", 'c dw "s"', "c dd 1, 2", 'c dq "s", 1']
WORDS = ["foo", "a", "c", "rax", "eax", "ax", "al", "r9", "r10d", "r11w", "5", "0x5", "0", "256", "65536", "4294967296",
         "18446744073709551616", "0x", "x", ",", "+", "-", "*", ":", "a:", "db", "dq", "mov", "push", "ret", "syscall", "section",
         "global", ".text", ".data", ".bss", ".foo", '"', '"s"', "'", "()", "[rax]", "a,", ",a", "5,", "5+", "#", "//", "\\", "%", "-5",
         "_", ".", "$", "@", "0b1", "1h", "1.5", "1e3", "'a'", "equ", "times", "resb", "extern", "ptr", "0o7", "5u", "_5", "5_0"]


def pieces(line):
    """the tokens of a plain line, commas apart"""
    out = []
    for w in re.findall(r'"[^"]*"|,|[^\s,"]+', line):
        out.append(w)
    return out


def join(ts):
    s = ""
    for k, w in enumerate(ts):
        s += w if k == 0 or w == "," else " " + w
    return s


def mutant(rng, line):
    """a valid line, spoilt (usually)"""
    ts = pieces(line)
    if not ts:
        return line
    k = rng.randrange(12)
    i = rng.randrange(len(ts))
    if k < 3:
        ts.insert(rng.randrange(len(ts) + 1), rng.choice(WORDS))
    elif k < 4:
        ts.append(rng.choice(WORDS))
    elif k < 6:
        ts[i] = rng.choice(WORDS)
    elif k == 6:
        del ts[i]
    elif k == 7:
        j = rng.randrange(len(ts))
        ts[i], ts[j] = ts[j], ts[i]
    elif k == 8:
        ts.insert(i, ts[i])
    elif k == 9:
        ts[i] = ts[i] + rng.choice(("x", "0", "_", ":", ".", "-", "'", ts[i][:1], ts[i].upper(), "\"", ";"))
    elif k == 10:
        w = ts[i]
        j = rng.randrange(len(w))
        ts[i] = w[:j] + rng.choice(("", "", rng.choice("ax0_.1"), w[j].swapcase())) + w[j + 1:]
    else:
        ts[i] = rng.choice(("", "+", "-", "x", "0", ".", "_", "'", "[", "%")) + ts[i]
    return join([w for w in ts if w])


def context(line):
    """a source around a line, in which a name the line may use is defined"""
    pre = ["section .data", "b: ", "db 1"] if line.startswith(("db", "dw", "dd", "dq")) else ["ret"]
    return "\n".join(pre + [line] + ([] if re.match(r"(section .text )?a(:| d[bwdq])", line) else ["section .data", "a:"]) + ["section .text", "ret"]) + "\n"


def spoilt(rng, n):
    """every valid line with every word inserted anywhere, sampled; every deletion and doubling; and n random mutants"""
    out = set()
    for line in VALID:
        ts = pieces(line)
        out.add(line)
        for i in range(len(ts)):
            out.add(join(ts[:i] + ts[i + 1:]))
            out.add(join(ts[:i + 1] + ts[i:]))
            out.add(join(ts[:i] + [ts[i].swapcase()] + ts[i + 1:]))
            for w in ("foo", "5", "x:", ","):
                out.add(join(ts[:i + 1] + [w] + ts[i + 1:]))
        for w in WORDS:
            out.add(join(ts + [w]))
    for _ in range(n):
        out.add(mutant(rng, rng.choice(VALID)))
    for _ in range(n // 3):
        out.add(mutant(rng, mutant(rng, rng.choice(VALID))))
    for _ in range(n // 4):
        out.add(bad_data(rng))
    return [context(l) for l in sorted(out)] + ["\n".join(in_bss(rng)) + "\n" for _ in range(n // 10)]


def bad_data(rng):
    """a data line with one bad item among good ones"""
    d = rng.choice(list(WIDTH))
    w = 8 * WIDTH[d]
    its = [item(rng, d, 0.5) for _ in range(rng.choice((1, 1, 2, 3, 8)))]
    i = rng.randrange(len(its))
    s = lambda: "".join(rng.choice("abc XYZ09,;'.") for _ in range(rng.choice((0, 1, 2, 7, 8, 15, 16, 17, 31, 60, 260))))
    k = rng.randrange(9)
    if k == 0:
        its[-1] = '"' + s()
    elif k == 1:
        its[i] = spell(rng, (1 << w) + rng.choice((0, 1, rng.getrandbits(8), rng.getrandbits(w), (1 << w) - 1)))
    elif k == 2:
        its[i] = spell(rng, rng.randrange(1 << w, 1 << (w + rng.choice((1, 8, 64)))))
    elif k == 3:
        its[i] = rng.choice(WORDS)
    elif k == 4:
        its[i] = '"' + s() + '"' + rng.choice(("x", "1", '"y"', " 1", ' "y"', "\""))
    elif k == 5:
        its[i] = its[i] + " " + item(rng, d, 0.3)
    elif k == 6:
        its[i] = rng.choice(("-", "x", "+", "$", "'")) + spell(rng, number(rng, 1 << w))
    elif k == 7:
        its[i] = spell(rng, number(rng, 1 << w)) + rng.choice(("h", "b", "x", "_", ".0", "u", "-1", "+1", " + 1", " - 0", "'"))
    else:
        its[i] = s() or "'"
    return (rng.choice(("", "q_ ")) + d + " " + rng.choice((", ", ",")).join(its)).replace("\n", " ")


def in_bss(rng):
    """something in .bss that may not stand there"""
    ls = ["section .bss"] + [rng.choice(("z%d:" % i, "", "; x", "global z0")) for i in range(rng.randrange(3))]
    d = rng.choice(list(WIDTH))
    l = rng.choice(("", "", "y_ "))
    ls.append(rng.choice((l + d + " 0", l + d + ' ""', l + d + " 0, 0, 0", l + d + " " + item(rng, d), "ret", "syscall", "push 0",
                          "push rax", "mov rax, rax", "mov eax, 0", "mov rax, 0", "mov ax, ax", "mov ax, 0")))
    if rng.random() < 0.5:
        ls += ["section .text", "ret"]
    return ls


def with_bad_line(rng, n=None):
    p = program(rng, n=n if n else rng.choice((1, 2, 3, 5, 9, 12, 20)))
    defined = []
    for l in p.lines:
        w = l.split(";")[0].split()
        if w and w[0].endswith(":"):
            defined.append(w[0][:-1])
        elif len(w) > 1 and w[1] in WIDTH and w[0] not in WIDTH:
            defined.append(w[0])
    i = rng.randrange(len(p.lines) + 1)
    k = rng.random()
    if k < 0.12:
        p.lines[i:i] = ["section .data"] * (rng.random() < 0.7) + [bad_data(rng)]
        return p
    if k < 0.2:
        p.lines[i:i] = in_bss(rng)
        return p
    if k < 0.5:
        l = rng.choice(p.lines + VALID)
        if "\"" in l or ";" in l or not l.strip():
            l = rng.choice(VALID)
        p.lines[i:i] = [mutant(rng, l)]
        return p
    p.lines[i:i] = bad_line(rng, defined).split("\n")
    return p


def scale(rng, deep=False):
    """sources that pass the sizes at which counters, buffers and fields of 7, 8, 15 and 16 bits end"""
    r = rng
    out = []
    J = lambda ls: "\n".join(ls) + "\n"
    use = lambda n: "mov %s, %s" % (r.choice(r.choice((R64, R32))), n)
    # line lengths
    for k in (126, 255, 256, 1022, 1023, 1024, 4090, 4095, 4096, 8190, 8191, 8192, 8193, 16384):
        out.append(J(["a:", "ret", "db \"" + "x" * k + "\"", "b:", use("b"), "ret ;" + "c" * k, "c:",
                      "push" + " " * k + "rax", " " * k + "d dw 1", use("d"), ";" + "e" * k, "e:"]))
        # what an assembler that loses count of a long line takes for a line of its own
        for c in ("ret", "f:", "db 5", "section .data", "global b", "mov rax, b"):
            out.append(J(["b:", "ret ;" + " " * k + c, "push rax" + " " * k + ";" + c, "; x" + "\t" * (k - 3) + c, "g:", "ret"]))
    # number of lines
    for k in (254, 255, 256, 257, 1000) + ((65534, 65535, 65536) if deep else ()):
        out.append(J([""] * k + ["a: ", "ret", use("a"), "section .data", "b db 1"]))
    for k in (30, 260):
        ls = []
        for i in range(k):
            ls += ["section ." + r.choice(("text", "data")), "l%d:" % i] + r.choice(([], ["ret"], ["db 1, 2"], ["push 7"]))
        out.append(J(ls + [use("l%d" % i) for i in r.sample(range(k), 20)]))
    # sizes of sections
    for s in ("text", "data"):
        for k in (120, 248, 32760, 65528):
            ls = ["section ." + s]
            n = 0
            while n < k:
                m = min(r.choice((250, 248, 240, 96)), k - n)
                ls.append('%s "%s"' % ("dq" if m % 8 == 0 else "db", "".join(r.choice("abcdefgh ") for _ in range(m))))
                n += m
            for i in range(12):
                ls += ["p%d:" % i, r.choice((use("q"), use("p3"), "ret", "mov ax, 5", "db 9"))]
            other = "data" if s == "text" else "text"
            ls += ["section ." + other, "q:", "ret", use("p11"), "section .bss", "z:", "section ." + s, use("z")]
            g = ["global " + x for x in ["q", "z"] + ["p%d" % i for i in range(12)] if r.random() < 0.5]
            ls = g[::2] + ls + g[1::2]
            out.append(J(ls))
    # numbers of labels, relocations, items, declarations
    for k in (127, 128, 255, 256, 257, 700):
        ns = ["l%d" % i for i in range(k)]
        ls = []
        for x in ns:
            ls += [x + ":"] + r.choice(([], ["ret"], ["db 1"], ["section .data"], ["section .text"]))
        ls += [use(x) for x in r.sample(ns, min(k, 60))] + [use(ns[-1]), use(ns[0])]
        ls += ["global " + x for x in r.sample(ns, k // 3)]
        out.append(J(ls))
    out.append(J(["a:"] + [use("a") for _ in range(300)]))
    out.append(J(["section .data", "a:"] + [use("a") for _ in range(260)] + ["section .text"] + [use("b") for _ in range(260)] + ["b:"]))
    for d, w in WIDTH.items():
        for k in (255, 256, 257, 1000):
            out.append("section .data\n" + d + " " + ", ".join(spell(r, r.getrandbits(8 * w), False) for _ in range(k)) + "\nq:\n")
        out.append('a %s "%s", 1, "%s"\nb:\nret\n' % (d, "x" * 255, "y" * 257))
    out.append(J(["global a%d" % i for i in range(300)] + ["a%d:" % i for i in range(0, 300, 7)]))
    out.append(J(["global a"] * 300 + ["a:", "b:"]))
    # lengths of names, size of the string table
    for k in (15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 5000):
        n = "n" * k
        out.append(J([n + ":", "ret", n + "a db 1", "section .bss", "b" + n + ":", "section .text", use(n), use(n + "a"),
                      use("b" + n), "global " + n + "a"]))
    ns = ["%s%d" % ("m" * 250, i) for i in range(270)]
    out.append(J([x + ":" for x in ns] + [use(x) for x in r.sample(ns, 20)] + ["global " + ns[-1]]))
    # names that differ only in one place
    for k in (6, 7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 255, 256, 1023):
        ns = ["%s%s%s" % ("m" * i, c, "m" * (k - i)) for i in sorted({0, k // 2, k - 1, k}) for c in r.sample("abcMm_9", 3)
              if i or c != "9"]
        ns = r.sample(sorted(set(ns)), len(set(ns)))
        defs = [l for x in ns for l in [x + r.choice((":", " db 1"))] + r.choice(([], ["ret"], ["section .data"], ["section .text"]))]
        g = ["global " + x for x in r.sample(ns, len(ns) // 2)]
        out.append(J(g + defs))
        out.append(J(defs + [use(x) for x in r.sample(ns, len(ns))] + g))
    # a bad line far down
    for k in (9, 99, 254, 255, 256, 300, 999) + ((65535, 65536, 70000) if deep else ()):
        out.append(J([r.choice(("", "ret", "; x", "push 1")) if k < 1000 else "" for _ in range(k)] + ["foo"]))
    return out


def near_registers():
    """names that are no registers here, close to ones that are: labels like any others"""
    out = set()
    for k in range(8, 32):
        for suf in ("", "b", "w", "d", "l", "q", "x", "h", "s", "i", "0", "_"):
            out.add("r%d%s" % (k, suf))
    for k in range(8):
        out |= {"r%d" % k, "r%dd" % k, "r0%d" % k, "r%dw" % k, "xmm%d" % k, "ymm%d" % k, "mm%d" % k, "st%d" % k, "cr%d" % k, "dr%d" % k, "k%d" % k}
    for a in "abcdsef":
        for b in "abcdsxlhpi":
            for c in ("", "l", "x", "h"):
                for pre in ("", "e", "r", "h", "z"):
                    out.add(pre + a + b + c)
    out |= {"rip", "eip", "ip", "cs", "ds", "es", "fs", "gs", "ss", "eflags", "rflags", "flags", "rax_", "_rax", "rax.", "rzx", "riz", "eiz",
            "rxx", "axl", "rspl", "r8dd", "r10dw", "erax", "reax", "raxx", "rsip", "tr", "gdtr"}
    regs = set(R64 + R32 + R16 + R8)
    out |= {x.upper() for x in regs} | {x.capitalize() for x in regs} | {x[:-1] + x[-1].upper() for x in regs}
    return sorted(x for x in out - regs if not x[0].isdigit())


def near_sources(rng):
    """each such name as a label, an operand of either width, and a pushed one"""
    out = []
    for x in near_registers():
        u, v = rng.choice(R64), rng.choice(R32)
        out.append("mov %s, %s\nmov %s, %s\n%s:\nret\n" % ((u, x, v, x, x) if rng.random() < 0.5 else (v, x, u, x, x)))
        if rng.random() < 0.2:
            out.append("mov %s, %s\nret\n" % (rng.choice(R16), x))
            out.append("mov %s, %s\n%s:\n" % (x, rng.choice((u, v, "1")), x))
            out.append("push %s\n%s:\n" % (x, x))
    return out


def near_symbols(rng, n):
    """an operand whose name is close to a label's, and no label's: there is no such symbol"""
    out = []
    for _ in range(n):
        x = rng.choice(("main", "_main", "start", "_start", "a", "loop1", "L1", ".l", "msg", "x" * rng.choice((8, 15, 16, 31, 32, 64, 200))))
        y = rng.choice((x + rng.choice("_.$@1a0"), rng.choice("_.$@La") + x, x[1:], x[:-1], x.swapcase(), x.capitalize(), x[::-1], x + x,
                        x[:-1] + "z", "z" + x[1:], x + "@PLT", "_" + x + "_", "__" + x, x.lstrip("_"), "main.o", "printf"))
        ls = ["mov %s, %s" % (rng.choice(R64 + R32), y)] if y and not y[0].isdigit() else ["mov rax, nowhere"]
        d = rng.choice((x + ":", "section .data\n%s db 1" % x, "global %s\n%s:" % (x, x), "global %s\n%s:" % (ls[0].split()[-1], x)))
        ls.insert(rng.randrange(2), d)
        out.append("\n".join(ls) + "\n")
    return out


OTHERS = {  # what other assemblers know, or nearly what this one does
    "mov": "movq movl movw movb movzx movsx movabs movs mova mov1 move mo MOV Mov".split(),
    "push": "pushq pushw pushd pusha push1 pus PUSH pop popq".split(),
    "ret": "retn retf retq iret re rett RET leave nop hlt clc int3 cdq cqo pause ud2 cpuid lock rep".split(),
    "syscall": "sysenter sysret syscal syscalls SYSCALL sysenterq int".split()}


def other_lines():
    out = []
    for m in OTHERS["mov"]:
        out += [m + " rax, rbx", m + " eax, 1", m + " rcx, x"]
    for m in OTHERS["push"]:
        out += [m + " rax", m + " 1", m]
    for m in OTHERS["ret"] + OTHERS["syscall"]:
        out += [m, m + " 0x80", m + " rax"]
    out += ["%s %s" % (m, a) for m in "lea add sub xor cmp test and or adc sbb imul xchg".split() for a in ("rax, rbx", "rax, 1", "rax, x")]
    out += ["%s %s" % (m, a) for m in "jmp call je jne jz int inc dec neg not mul loop".split() for a in ("x", "rax", "128")]
    out += ["section " + s for s in (".rodata", ".text1", "text", "__text", ".TEXT", ".Data", ".bss1", ".datas", ".", "data", ".const", "__TEXT,__text",
                                     '".text"', ".text .data", ".text,", ".text:", ".text align=16")]
    out += [m + " x" for m in "extern globl .globl .global public export GLOBAL Global align org bits use64 default rel times equ include %include".split()]
    out += ["%s %s" % (m, a) for m in "dt do ddq dqq ddw d DB Dw dB db. .db .byte .quad byte resb resw resd resq rb".split() for a in ("1", '"a"', "1, 2")]
    out += ["[rax]", "rax", "mov", "mov rax", "mov rax,", "mov ,rax", "mov rax rbx", "mov rax, rbx, rcx", "mov rax, [rbx]", "mov [rax], rbx", "mov rax, qword 1",
            "mov rax, -1", "mov rax, +1", "mov rax, 1h", "mov rax, 0b1", "mov rax, 0o7", "mov rax, 1_000", "mov rax, 0x", "mov rax, 'a'", 'mov rax, "a"', "mov rax, $1",
            "mov rax, $", "mov rax, %rbx", "mov %rax, rbx", "mov $1, rax", "mov rax, 1 * 2", "mov rax, (1)", "mov rax, 1 + ", "mov rax, + 1", "mov rax, 1 - ",
            "mov rax, 1 + 2 + 3", "mov rax, 1+2", "mov rax, 1 +2", "mov rax, 1+ 2", "mov rax, x + 1", "mov rax, 1 + x", "mov 1, rax", "mov 1, 2", "mov x, rax",
            "push rax, rbx", "push", "push -1", "push 1 + 1", "push 4294967296", "push x y", "ret ret", "ret:", "ret ;x", "ret; x", "syscall,", "global", "global x y",
            "global x, y", "global 1", "global rax", "global x:", "x", "x:y", "x::", ": x", ":", "x :", "x : ret", "x: y:", "1:", "1x:", "x: db 1", "x db", "x db ,", "x db 1,",
            "x db 1,,2", "db 1 2", "db", "db ,1", 'db "a', "db 'a'", 'db "a""b"', 'db "a" "b"', 'db "a"b', 'db a', "db x", "db -1", "db 1 + 1", "db 1.5", "db 0x1g", "x y db 1",
            "x x: db 1", "section", "section .text ; c", "section.text", " section .text", "sect .text", "Section .text"]
    return out


def other_sources(rng, frac=1.0):
    return [context(l) for l in other_lines() if rng.random() < frac]
