use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    assert!(s.len() % 2 == 0);
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// JSON array of byte values
pub fn jbytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        if *x >= 100 {
            s.push((b'0' + x / 100) as char);
        }
        if *x >= 10 {
            s.push((b'0' + x / 10 % 10) as char);
        }
        s.push((b'0' + x % 10) as char);
    }
    s.push(']');
    s
}

pub fn jstr(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => s.push('?'),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// runs `f`; None if it panicked
pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// how a stream fails: after `at` bytes, with an error of this kind, once or for good
#[derive(Clone, Copy)]
pub struct Fail {
    pub at: usize,
    pub kind: std::io::ErrorKind,
    pub once: bool,
    /// readers: not an error but Ok(0)
    pub pause: bool,
    done: bool,
}

impl Fail {
    /// N or N.KIND.ONCE
    pub fn parse(s: &str) -> Option<Fail> {
        use std::io::ErrorKind::*;
        const KINDS: [std::io::ErrorKind; 14] = [
            Other,
            UnexpectedEof,
            WouldBlock,
            TimedOut,
            BrokenPipe,
            ConnectionReset,
            InvalidData,
            InvalidInput,
            PermissionDenied,
            NotFound,
            WriteZero,
            ConnectionAborted,
            AlreadyExists,
            Interrupted,
        ];
        if s == "-" {
            return None;
        }
        let f: Vec<usize> = s.split('.').map(|x| x.parse().unwrap()).collect();
        Some(Fail {
            at: f[0],
            kind: KINDS[*f.get(1).unwrap_or(&0) % KINDS.len()],
            pause: f.get(1) == Some(&KINDS.len()),
            once: *f.get(2).unwrap_or(&0) == 1,
            done: false,
        })
    }
    fn armed(&self) -> bool {
        !(self.once && self.done)
    }
    fn raise(&mut self) -> std::io::Error {
        self.done = true;
        std::io::Error::new(self.kind, "injected")
    }
}

/// A reader that hands out at most `chunk` bytes per call (0: unlimited)
/// and fails once `fail` bytes were delivered.
pub struct ChunkReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: usize,
    pub fail: Option<Fail>,
}

impl<'a> std::io::Read for ChunkReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = self.data.len() - self.pos;
        if let Some(f) = self.fail.as_mut().filter(|f| f.armed()) {
            if self.pos >= f.at && !(f.pause && buf.is_empty()) {
                let e = f.raise();
                return if f.pause { Ok(0) } else { Err(e) };
            }
            n = n.min(f.at - self.pos);
        }
        n = n.min(buf.len());
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A writer that takes at most `chunk` bytes per call (0: unlimited) and
/// refuses everything after `fail` bytes (error, or Ok(0) if `zero`).
pub struct ChunkWriter {
    pub got: Vec<u8>,
    pub chunk: usize,
    pub fail: Option<Fail>,
    pub zero: bool,
}

impl ChunkWriter {
    pub fn new(chunk: usize) -> Self {
        ChunkWriter {
            got: Vec::new(),
            chunk,
            fail: None,
            zero: false,
        }
    }
}

impl std::io::Write for ChunkWriter {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut n = buf.len();
        let got = self.got.len();
        if let Some(f) = self.fail.as_mut().filter(|f| f.armed()) {
            if got >= f.at && n > 0 {
                let e = f.raise();
                return if self.zero { Ok(0) } else { Err(e) };
            }
            n = n.min(f.at - got);
        }
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A writer that keeps only the pieces with bytes that are not zero.
pub struct Sparse {
    pub len: u64,
    pub runs: Vec<(u64, Vec<u8>)>,
    kept: usize,
}

const BLOCK: [u8; 1 << 16] = [0; 1 << 16];

impl Sparse {
    pub fn new() -> Self {
        Sparse {
            len: 0,
            runs: Vec::new(),
            kept: 0,
        }
    }
    pub fn json(&self) -> String {
        let runs: Vec<String> = self
            .runs
            .iter()
            .map(|(at, b)| format!("{{\"at\":{},\"b\":{}}}", jbytes(&at.to_le_bytes()), jbytes(b)))
            .collect();
        format!(
            "{{\"len\":{},\"runs\":[{}]}}",
            jbytes(&self.len.to_le_bytes()),
            runs.join(",")
        )
    }
    fn keep(&mut self, at: u64, b: &[u8]) {
        self.kept += b.len();
        if let Some((start, run)) = self.runs.last_mut() {
            if *start + run.len() as u64 == at {
                run.extend_from_slice(b);
                return;
            }
        }
        self.runs.push((at, b.to_vec()));
    }
}

impl std::io::Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        for block in buf.chunks(BLOCK.len()) {
            if block != &BLOCK[..block.len()] {
                for (i, line) in block.chunks(32).enumerate() {
                    if line != &BLOCK[..line.len()] {
                        self.keep(self.len + 32 * i as u64, line);
                    }
                }
            }
            self.len += block.len() as u64;
            // (it is to be read by TLC)
            if self.kept > 1 << 16 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "too much"));
            }
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
