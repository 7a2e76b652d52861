//! Runs the real assembler in a forked child, because a refused source ends the process.
use crate::util::*;
use at_asm::Assembler;
use std::io::Read;
use std::os::unix::io::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn alarm(s: u32) -> u32;
}

fn send(fd: i32, s: &str) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let k = unsafe { write(fd, b[i..].as_ptr(), b.len() - i) };
        if k <= 0 {
            unsafe { _exit(97) }
        }
        i += k as usize;
    }
}

/// SRCHEX OP...   where OP is
///   F:from:to:chunk:fail   feed source bytes [from,to) (fail: - or N or N.KIND.ONCE)
///   W:chunk:fail           write the object (fail: - | eN.. | zN..)
///   N                      start over with a new assembler in the same process
///   S:k                    the following is for assembler k (1 at first), which is made at its first use
/// Reply: {"ev":[..one per completed op..],"end":"ok|exit|panic|signal","code":n,"err":"stderr"}
pub fn run(a: &[&str]) -> String {
    let src = unhex(a[0]);
    let ops = &a[1..];
    let mut p = [0i32; 2];
    let mut e = [0i32; 2];
    unsafe {
        assert!(pipe(p.as_mut_ptr()) == 0 && pipe(e.as_mut_ptr()) == 0);
    }
    let pid = unsafe { fork() };
    assert!(pid >= 0);
    if pid == 0 {
        unsafe {
            close(p[0]);
            close(e[0]);
            dup2(e[1], 2);
            alarm(20);
        }
        let _ = std::panic::take_hook(); // default hook: the message goes to stderr
        let fd = p[1];
        let mut all: Vec<Option<Assembler>> = vec![Some(Assembler::new())];
        let mut cur = 0;
        for op in ops {
            let f: Vec<&str> = op.split(':').collect();
            let asm = all[cur].as_mut().unwrap();
            match f[0] {
                "S" => {
                    cur = f[1].parse::<usize>().unwrap() - 1;
                    while all.len() <= cur {
                        all.push(None);
                    }
                    all[cur].get_or_insert_with(Assembler::new);
                    send(fd, "{\"e\":\"use\"}\n");
                }
                "N" => {
                    *asm = Assembler::new();
                    send(fd, "{\"e\":\"new\"}\n");
                }
                "F" => {
                    let (x, y): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                    let mut r = ChunkReader {
                        data: &src[x..y],
                        pos: 0,
                        chunk: f[3].parse().unwrap(),
                        fail: Fail::parse(f[4]),
                    };
                    let ok = caught(|| {
                        asm.read_from(&mut r);
                    });
                    if ok.is_none() {
                        send(fd, "{\"e\":\"panic\",\"op\":\"feed\",\"file\":[]}\n");
                        unsafe { _exit(101) }
                    }
                    send(fd, "{\"e\":\"feed\"}\n");
                }
                "W" => {
                    let mut w = ChunkWriter::new(f[1].parse().unwrap());
                    if f[2] != "-" {
                        w.zero = f[2].starts_with('z');
                        w.fail = Fail::parse(&f[2][1..]);
                    }
                    let ok = caught(|| asm.write_into(&mut w));
                    if ok.is_none() {
                        send(
                            fd,
                            &format!(
                                "{{\"e\":\"panic\",\"op\":\"write\",\"file\":{}}}\n",
                                jbytes(&w.got)
                            ),
                        );
                        unsafe { _exit(101) }
                    }
                    send(
                        fd,
                        &format!("{{\"e\":\"write\",\"file\":{}}}\n", jbytes(&w.got)),
                    );
                }
                _ => panic!("op"),
            }
        }
        send(fd, "{\"e\":\"done\"}\n");
        unsafe { _exit(0) }
    }
    unsafe {
        close(p[1]);
        close(e[1]);
    }
    let mut text = String::new();
    let mut err = Vec::new();
    let mut rp = unsafe { std::fs::File::from_raw_fd(p[0]) };
    let mut re = unsafe { std::fs::File::from_raw_fd(e[0]) };
    rp.read_to_string(&mut text).unwrap();
    re.read_to_end(&mut err).unwrap();
    let mut st = 0i32;
    unsafe {
        waitpid(pid, &mut st, 0);
    }
    let evs: Vec<&str> = text.lines().filter(|l| *l != "{\"e\":\"done\"}").collect();
    let done = text.ends_with("{\"e\":\"done\"}\n");
    let panicked = evs
        .last()
        .map_or(false, |l| l.starts_with("{\"e\":\"panic\""));
    let (end, code) = if st & 0x7f != 0 {
        ("signal", st & 0x7f)
    } else if panicked {
        ("panic", (st >> 8) & 0xff)
    } else if done {
        ("ok", (st >> 8) & 0xff)
    } else {
        ("exit", (st >> 8) & 0xff)
    };
    format!(
        "{{\"ev\":[{}],\"end\":\"{}\",\"code\":{},\"err\":{}}}",
        evs.join(","),
        end,
        code,
        jstr(&String::from_utf8_lossy(&err))
    )
}

/// A source with much in the middle: head lines, PAD zero bytes as strings of up to 1 MB, tail lines.
struct Long {
    parts: Vec<(u64, Vec<u8>)>, // times, text
    part: usize,
    time: u64,
    pos: usize,
}

impl Read for Long {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        while self.part < self.parts.len() {
            let (n, text) = &self.parts[self.part];
            if self.time == *n {
                self.part += 1;
                self.time = 0;
            } else if self.pos == text.len() {
                self.time += 1;
                self.pos = 0;
            } else {
                let k = buf.len().min(text.len() - self.pos);
                buf[..k].copy_from_slice(&text[self.pos..self.pos + k]);
                self.pos += k;
                return Ok(k);
            }
        }
        Ok(0)
    }
}

/// HEADHEX PAD TAILHEX: assembles and writes a long source; reply as of `big`
pub fn long(a: &[&str]) -> String {
    const LINE: usize = 1 << 20;
    let pad: u64 = a[1].parse().unwrap();
    let line = |n: usize| {
        let mut t = b"db \"".to_vec();
        t.extend(vec![0u8; n]);
        t.extend_from_slice(b"\"\n");
        t
    };
    let rest = (pad % LINE as u64) as usize;
    let mut src = Long {
        parts: vec![
            (1, unhex(a[0])),
            (pad / LINE as u64, line(LINE)),
            ((rest > 0) as u64, line(rest)),
            (1, unhex(a[2])),
        ],
        part: 0,
        time: 0,
        pos: 0,
    };
    let mut p = [0i32; 2];
    let pid = unsafe {
        assert!(pipe(p.as_mut_ptr()) == 0);
        fork()
    };
    assert!(pid >= 0);
    if pid == 0 {
        unsafe {
            close(p[0]);
            alarm(600);
        }
        let mut w = Sparse::new();
        let mut asm = Assembler::new();
        if caught(|| {
            asm.read_from(&mut src);
            asm.write_into(&mut w);
        })
        .is_none()
        {
            unsafe { _exit(101) }
        }
        send(p[1], &w.json());
        unsafe { _exit(0) }
    }
    unsafe { close(p[1]) };
    let mut text = String::new();
    let mut rp = unsafe { std::fs::File::from_raw_fd(p[0]) };
    rp.read_to_string(&mut text).unwrap();
    let mut st = 0i32;
    unsafe {
        waitpid(pid, &mut st, 0);
    }
    if st & 0x7f == 0 && st != 0 {
        return "{\"ok\":false}".to_string(); // refused
    }
    format!(
        "{{\"ok\":{},\"signal\":{},\"file\":{}}}",
        st == 0,
        st & 0x7f,
        if st == 0 { text } else { "0".to_string() }
    )
}
