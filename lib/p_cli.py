"""C20: the command over a file system, against Cli.tla"""
import stat, struct, threading
from common import *
import gen_asm as G
import p_asm

SOURCES = {"good": b'global _s\nsection .text\n_s:\nmov rax, m\nsyscall\nsection .data\nm db "hi", 10\n',
           "good2": b"x:\nmov ecx, 5\nret", "bad": b"mov rax, 1\nfoo\n", "old": b"\x07" * 3000, "empty": b"",
           "undef": b"mov rax, nowhere\n", "latin": b"ret ; \xff\xfe\n", "nodata": b"\n; nothing\n"}


class Watch:
    """names made, written, moved or removed below a directory meanwhile (inotify); nothing where that is not to be had"""
    MASK = 0x2 | 0x40 | 0x80 | 0x100 | 0x200

    def __init__(self, root):
        self.fd, self.dirs = -1, {}
        try:
            import ctypes
            libc = ctypes.CDLL(None, use_errno=True)
            self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
            for dp, _, _ in os.walk(root) if self.fd >= 0 else ():
                self.dirs[libc.inotify_add_watch(self.fd, os.fsencode(dp), self.MASK)] = dp
        except (ImportError, OSError, AttributeError):
            pass

    def names(self):
        got, data = set(), b""
        try:
            while self.fd >= 0:
                data = os.read(self.fd, 1 << 16)
                while data:
                    wd, _, _, n = struct.unpack("iIII", data[:16])
                    if wd in self.dirs and n:
                        got.add(os.path.join(self.dirs[wd], os.fsdecode(data[16:16 + n].rstrip(b"\0"))))
                    data = data[16 + n:]
        except OSError:
            pass
        if self.fd >= 0:
            os.close(self.fd)
        return got


class World:
    """contents by name: sources, and the objects the library makes of them"""

    def __init__(self, exe, sources):
        self.bytes = dict(sources)
        self.obj = {}
        reps = dict(zip(sources, run_harness(exe, [p_asm.asm_req(b) for b in sources.values()])))
        for n, r in reps.items():
            fs = [e["file"] for e in r.get("ev", []) if e["e"] == "write"]
            self.obj[n] = "refused"
            if r.get("end") == "ok" and fs:
                self.obj[n] = self.name(bytes(fs[0]))
        for n in list(self.bytes):
            self.obj.setdefault(n, "refused")

    def name(self, b):
        for n, x in self.bytes.items():
            if x == b:
                return n
        n = "o%d" % len(self.bytes) if len(b) < 100000 else "big"
        self.bytes[n] = b
        return n


class Pipe:
    """a named pipe and whoever is at its other end: content is written into it in pieces, or what comes is kept"""

    def __init__(self, path, content):
        os.mkfifo(path)
        self.path, self.content, self.ended = path, content, False
        self.fd = -1 if content else os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        self.got = b""
        self.thread = threading.Thread(target=self.write if content else self.read)
        self.thread.start()

    def write(self):
        while not self.ended:
            try:
                fd = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError:  # nobody reads yet
                time.sleep(0.001)
        else:
            return
        rest = self.content
        cuts = [1, 7, 300, len(rest)]
        while rest and not self.ended:
            try:
                rest = rest[os.write(fd, rest[:cuts[0]]):]
                cuts = cuts[1:] + cuts[-1:]
                time.sleep(0.001)
            except BlockingIOError:
                time.sleep(0.001)
            except OSError:
                break
        os.close(fd)

    def read(self):
        while True:
            last = self.ended
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                b = b""
            self.got += b
            if not b:
                if last:
                    break
                time.sleep(0.001)
        os.close(self.fd)

    def end(self):
        self.ended = True
        self.thread.join()
        return self.content or self.got


def run_one(cli, root, world, case):
    """case: args, cwd, fs {path: (kind, content name)} -> (code, world after, names used on the way)"""
    os.makedirs(root)
    pipes = {}
    real = lambda p: p.replace("@", root, 1) if p.startswith("@") else p
    try:
        for p in sorted(case["fs"], key=len):
            k, n = case["fs"][p]
            if k == "dir":
                os.makedirs(real(p), exist_ok=True)
            elif k == "link":
                os.makedirs(os.path.dirname(real(p)), exist_ok=True)
                os.symlink(real(n), real(p))
            elif k == "pipe":
                os.makedirs(os.path.dirname(real(p)), exist_ok=True)
                pipes[p] = Pipe(real(p), world.bytes[n] if n else b"")
            else:
                os.makedirs(os.path.dirname(real(p)), exist_ok=True)
                open(real(p), "wb").write(world.bytes[n])
        watch = Watch(root)
        try:
            pr = subprocess.run([cli] + [real(a) for a in case["args"]], cwd=real(case["cwd"]), stdin=subprocess.DEVNULL,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=10 if pipes else 60,
                                env=dict(os.environ, RUST_BACKTRACE="0"))
            code = pr.returncode
        except subprocess.TimeoutExpired:
            code = 999
        through = {p: x.end() for p, x in pipes.items()}
        used = {"@" + p[len(root):] for p in watch.names()}
        after = [("@", "dir", b"")]
        for dp, dn, fn in os.walk(root):
            rel = "@" + dp[len(root):]
            for x in dn + fn:
                q = os.path.join(dp, x)
                if os.path.islink(q):
                    to = os.readlink(q)
                    after.append((rel + "/" + x, "link", "@" + to[len(root):] if to.startswith(root) else to))
                elif x in dn:
                    after.append((rel + "/" + x, "dir", b""))
                elif stat.S_ISFIFO(os.lstat(q).st_mode):
                    after.append((rel + "/" + x, "pipe", through.get(rel + "/" + x, b"")))
                elif not os.path.isfile(q):
                    after.append((rel + "/" + x, "other", b""))
                else:
                    after.append((rel + "/" + x, "file", open(q, "rb").read()))
        return code, after, used - set(case["fs"]) - {p for p, _, _ in after}
    finally:
        for x in pipes.values():
            x.end()
        shutil.rmtree(root, ignore_errors=True)


NAMES = ["a.asm", "b", "c.s", "x.y.z", ".hid", "sp ace.asm", "\u3042.asm", "e.", "..x", "-in", "long" * 20 + ".asm", "a", "o", "q.o", "-o.asm", "-old", "-output.s", "--", "-", "--help", "o.asm",
         "a.b", "A.ASM", "a.o.asm", "a.", "...", "a..s", ".s", "tab\tname.s", "new\nline.s", "a;b.s", "*.s", "$x.s", "%s.s", "\\.s", "'q'.s",
         "a.\u00e9", "very" * 60, "x=y.s", "#.s", "~"]
OUTS = ["out", "out.o", "a.o", "d/out", "sub/dir/o.bin", "no/o", "d", "../up", "./here", "a.asm.o", "sp ace", "-x", "f/z", "-out", "--o", "O", "out.asm", "v1.2/q", "x.o", "x.o/x.o", ".d/a", "a.s.o", "o.", ".o", "-"]


def random_case(r, names):
    fs = {"@": ("dir", ""), "@/d": ("dir", ""), "@/sub": ("dir", ""), "@/sub/dir": ("dir", ""), "@/f": ("file", "old"),
          "@/v1.2": ("dir", ""), "@/.d": ("dir", ""), "@/x.o": ("dir", "")}
    cwd = r.choice(("@", "@", "@/sub", "@/d"))
    d = r.choice(("", "", "sub/", "sub/dir/", "../", "./", "@/", "@/sub/", "d/../", "v1.2/", ".d/", "x.o/", "@/v1.2/", "@/.d/"))
    if cwd == "@" and d == "../" or cwd != "@" and d in ("sub/", "sub/dir/", "d/../", "v1.2/", ".d/", "x.o/"):
        d = ""
    inp = d + r.choice(NAMES)
    res = (inp if inp.startswith("@") else cwd + "/" + inp)
    parts = []
    for x in res.split("/"):
        if x == "..":
            parts.pop()
        elif x not in (".", ""):
            parts.append(x)
    path = "/".join(parts)
    k = r.random()
    if k < 0.87:
        fs[path] = ("file", r.choice(names))
    elif k < 0.92:
        fs[path] = ("dir", "")
    args = [inp]
    if r.random() < 0.65:
        out = r.choice(("", "", "", "@/")) + r.choice(OUTS)
        if ".." in out and (out.startswith("@") or cwd == "@"):
            out = "@/out"
        if r.random() < 0.5:
            args = [inp, "-o", out]
        else:
            args = ["-o", out, inp]
        q = out if out.startswith("@") else cwd + "/" + out
    else:
        q = None
    if r.random() < 0.6:  # something at the output already
        stem = path.rsplit("/", 1)[0] + "/" + (path.rsplit("/", 1)[1].rsplit(".", 1)[0] or "z") + ".o"
        q = q or stem
        if ".." not in q and "/./" not in q and q not in fs and q != path and os.path.dirname(q) in fs \
                and fs[os.path.dirname(q)][0] == "dir":
            fs[q] = ("file", r.choice(("old", "empty", "good"))) if r.random() < 0.85 else ("dir", "")
    if r.random() < 0.12:  # unusable
        k = r.randrange(5)
        args = [[], args + ["extra"], args[:-1], [inp, "-o"], ["-o"]][k]
    if r.random() < 0.3:  # links: in place of the input, the output, a directory on the way
        files = [p for p, (k, _) in fs.items() if k == "file" and p != "@/f"]
        for p in r.sample(files, min(len(files), r.randrange(3))):
            to = r.choice(("@/l1", "@/sub/l1.s", "@/d/l1"))
            if to not in fs:
                fs[to] = fs[p]
                fs[p] = ("link", to if r.random() < 0.5 else os.path.relpath(to[1:], os.path.dirname(p)[1:] or "/"))
        if r.random() < 0.4:
            fs.setdefault(r.choice(("@/l2", "@/o", "@/out.o", "@/sub/out", "@/d/a.o", "@/b.o")), ("link", r.choice(("f", "none", "d", "../f", "@/sub/new"))))
    if r.random() < 0.1:  # pipes: in place of the input, the output
        if fs.get(path, "-")[0] == "file":
            k, n = fs[path]
            fs[path] = ("pipe", n) if n != "empty" else fs[path]
        if q and q != path and ".." not in q and "/./" not in q and fs.get(q, ("file",))[0] == "file" and \
                fs.get(os.path.dirname(q), "-")[0] == "dir" and r.random() < 0.5:
            fs[q] = ("pipe", "")
    for _ in range(r.randrange(3)):  # bystanders
        fs.setdefault(r.choice(("@/", "@/sub/", "@/d/")) + r.choice(("z1", "z2.o", "a.asm", "b.o", "a.o.tmp")), ("file", r.choice(names)))
    return {"args": args, "cwd": cwd, "fs": fs}


def c20(c):
    exe, cli = build_harness(), build_cli()
    th = c.thorough
    src = dict(SOURCES)
    for k in range(30 if th else 8):
        src["g%d" % k] = G.program(c.rng, w={"movs": 3}).text().encode()
    src["large"] = ("section .data\n" + "\n".join('dq "%s", %d' % ("y" * (i % 60), i) for i in range(3000)) + "\n").encode()
    world = World(exe, src)
    if "refused" in (world.obj["good"], world.obj["good2"]) or world.obj["bad"] != "refused":
        c.notes["remark"] = "the library treats the base sources differently from the model's names"
    r = c.model("MCCli", 'SPECIFICATION Spec\nCONSTANTS ARGS = {"-o", "a.asm", "out", "c", "d/c", "l/c"}\nMAXARGS = %d\nWORLDS = {1, 2, 3, 4, 5, 6, 7, 8, 9}\n'
                "INVARIANTS Untouched OnlyOutput Written InputKept Links\n" % (4 if th else 3))
    cases, seen = [], set()
    for p in printed(r.out):
        k = json.dumps(p, sort_keys=True)
        if k not in seen:
            seen.add(k)
            if p["pc"] == "open" and "pipe" in [e["k"] for e in p["fs"].values()]:
                continue  # (it may wait for ever)
            cases.append({"args": p["args"], "cwd": p["cwd"], "fs": {q: (e["k"], e["c"]) for q, e in p["fs"].items()}})
    nm = len(cases)
    keepall = [x for x in cases if len(x["args"]) <= 1 or x["args"].count("-o") == 1]
    cases = c.rng.sample(keepall, min(len(keepall), 4000 if th else 700)) + c.rng.sample(cases, 100)
    names = [n for n in src if n != "old"]
    cases += [random_case(c.rng, names) for _ in range(6000 if th else 1100)]
    base = workdir("c20")
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda i: run_one(cli, os.path.join(base, "w%d" % i), world, cases[i]), range(len(cases))))
        # names that are used on the way (a temporary file): again, with other files of these names there
        more = [dict(k, fs=dict(k["fs"], **{p: ("file", "old") for p in used})) for k, (_, _, used) in zip(cases, res) if used]
        more = c.rng.sample(more, min(len(more), 300))
        cases += more
        res += ex.map(lambda k: run_one(cli, os.path.join(base, "t%d" % k), world, more[k]), range(len(more)))
    shutil.rmtree(base, ignore_errors=True)
    tr = []
    known = {}
    for n, b in world.bytes.items():
        known.setdefault(b, n)
    for case, (code, after, _) in zip(cases, res):
        canon = lambda n: known[world.bytes[n]] if n else ""
        before = [{"p": p, "k": k, "c": canon(n) if k in ("file", "pipe") else n} for p, (k, n) in case["fs"].items()]
        aft = []
        for p, k, b in after:
            if k == "pipe" and not b:
                aft.append({"p": p, "k": k, "c": ""})
                continue
            if k in ("file", "pipe") and b not in known:
                known[b] = "unknown%d" % len(known)
            aft.append({"p": p, "k": k, "c": known[b] if k in ("file", "pipe") else b if k == "link" else ""})
        ns = sorted(set(e["c"] for e in before if e["k"] in ("file", "pipe") and e["c"]))
        tr.append({"args": case["args"], "cwd": case["cwd"], "before": before, "after": aft, "code": code,
                   "obj": [{"c": n, "o": canon(world.obj[n]) if world.obj.get(n, "refused") != "refused" else "refused"} for n in ns] +
                          [{"c": "none", "o": "refused"}]})
    r = c.validate("TraceCli", tr, "SPECIFICATION Spec\nINVARIANT Conforms\n",
                   lambda i: {"case": cases[i], "command": [cli] + cases[i]["args"]})
    st = printed(r.out)
    c.notes["runs_of_the_command"] = {"cases_in_model": nm, "replayed": len(cases), "with_names_used_on_the_way": len(more), **{k: st.count(k) for k in set(st)}}
    if st.count("success") < len(st) // 5 or st.count("failure") < len(st) // 10:
        raise ToolError("too little is specified: %s" % c.notes["runs_of_the_command"])


CHECKS = {"C20": c20}
