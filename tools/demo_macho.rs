// a small reader of 64-bit little-endian object files, for demonstrations
#![allow(dead_code)]
pub fn u16at(b: &[u8], p: usize) -> u64 { b[p] as u64 | (b[p + 1] as u64) << 8 }
pub fn u32at(b: &[u8], p: usize) -> u64 { u16at(b, p) | u16at(b, p + 2) << 16 }
pub fn u64at(b: &[u8], p: usize) -> u64 { u32at(b, p) | u32at(b, p + 4) << 32 }
pub fn cstr(b: &[u8], p: usize) -> String {
    b[p..].iter().take_while(|c| **c != 0).map(|c| *c as char).collect()
}
pub fn name16(b: &[u8], p: usize) -> String { cstr(&b[..p + 16], p) }
#[derive(Debug, Clone, PartialEq)]
pub struct Sect { pub name: String, pub addr: u64, pub size: u64, pub off: u64, pub reloff: u64, pub nreloc: u64, pub flags: u64, pub bytes: Vec<u8>, pub relocs: Vec<Rel> }
#[derive(Debug, Clone, PartialEq)]
pub struct Sym { pub name: String, pub ty: u8, pub sect: u8, pub value: u64, pub strx: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct Rel { pub addr: u64, pub sym: u64, pub pcrel: bool, pub len: u64, pub ext: bool, pub ty: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct Obj { pub sects: Vec<Sect>, pub syms: Vec<Sym>, pub vmsize: u64, pub fileoff: u64, pub filesize: u64, pub symoff: u64, pub nsyms: u64, pub stroff: u64, pub strsize: u64 }
impl Obj {
    pub fn sect(&self, n: &str) -> Option<&Sect> { self.sects.iter().find(|s| s.name == n) }
    pub fn bytes(&self, n: &str) -> Vec<u8> { self.sect(n).map(|s| s.bytes.clone()).unwrap_or_default() }
    pub fn sym(&self, n: &str) -> Option<&Sym> { self.syms.iter().find(|s| s.name == n) }
    /// section name and offset in it
    pub fn place(&self, n: &str) -> (String, u64) {
        let s = self.sym(n).expect("no such symbol");
        let t = &self.sects[s.sect as usize - 1];
        (t.name.clone(), s.value.wrapping_sub(t.addr))
    }
    pub fn is_ext(&self, n: &str) -> bool { self.sym(n).expect("no such symbol").ty & 1 == 1 }
}
pub fn parse(b: &[u8]) -> Obj {
    let mut o = Obj { sects: vec![], syms: vec![], vmsize: 0, fileoff: 0, filesize: 0, symoff: 0, nsyms: 0, stroff: 0, strsize: 0 };
    assert_eq!(u32at(b, 0), 0xfeedfacf, "magic");
    let mut p = 32;
    for _ in 0..u32at(b, 16) {
        let (cmd, size) = (u32at(b, p), u32at(b, p + 4) as usize);
        if cmd == 0x19 {
            o.vmsize = u64at(b, p + 32); o.fileoff = u64at(b, p + 40); o.filesize = u64at(b, p + 48);
            for i in 0..u32at(b, p + 64) as usize {
                let q = p + 72 + 80 * i;
                let (size, off, flags) = (u64at(b, q + 40), u32at(b, q + 48), u32at(b, q + 64));
                let bytes = if flags & 0xff == 1 { vec![] } else { b[off as usize..(off + size) as usize].to_vec() };
                let (ro, nr) = (u32at(b, q + 56), u32at(b, q + 60));
                let relocs = (0..nr as usize).map(|k| { let r = ro as usize + 8 * k; let w = u32at(b, r + 4);
                    Rel { addr: u32at(b, r), sym: w & 0xffffff, pcrel: w >> 24 & 1 == 1, len: w >> 25 & 3, ext: w >> 27 & 1 == 1, ty: w >> 28 } }).collect();
                o.sects.push(Sect { name: name16(b, q), addr: u64at(b, q + 32), size, off, reloff: ro, nreloc: nr, flags, bytes, relocs });
            }
        } else if cmd == 2 {
            o.symoff = u32at(b, p + 8); o.nsyms = u32at(b, p + 12); o.stroff = u32at(b, p + 16); o.strsize = u32at(b, p + 20);
        }
        p += size;
    }
    for i in 0..o.nsyms as usize {
        let q = o.symoff as usize + 16 * i;
        let strx = u32at(b, q);
        o.syms.push(Sym { name: cstr(b, o.stroff as usize + strx as usize), ty: b[q + 4], sect: b[q + 5], value: u64at(b, q + 8), strx });
    }
    o
}
/// assembles in this process (a refused source ends it with status 1)
pub fn assemble(src: &str) -> Vec<u8> {
    let mut out = Vec::new();
    at_asm::Assembler::new().read_from(&mut src.as_bytes()).write_into(&mut out);
    out
}
pub fn obj(src: &str) -> Obj { parse(&assemble(src)) }
pub fn check(ok: bool, what: &str) { if !ok { println!("broken: {}", what); std::process::exit(1) } }

/// the library's value for a byte order (big?)
#[macro_export]
macro_rules! endian {
    ($big:expr) => {{
        let v: Vec<u8> = [0xfeedfacfu32, 0x01000007, 3, 1, 0, 0, 0, 0]
            .iter()
            .flat_map(|w| if $big { w.to_be_bytes().to_vec() } else { w.to_le_bytes().to_vec() })
            .collect();
        at_mac::header::Header64::read_from(&mut v.as_slice()).1
    }};
}
