use crate::util::*;
use at_obj::{macho, Object, Reloc, Symbol};

fn name(hex: &str) -> String {
    String::from_utf8(unhex(hex)).unwrap()
}

/// TEXTHEX DATAHEX BSSSIZE SYMS RELOCS WCHUNK WFAIL
/// SYMS:   sect,kind,namehex,val,ext ; ...   (kind U A R; sect t d b)   or -
/// RELOCS: sect,addr,namehex,pcrel,len ; ... or -
/// WFAIL:  - | eN | zN
pub fn run(a: &[&str]) -> String {
    let mut w = ChunkWriter::new(a[5].parse().unwrap());
    if a[6] != "-" {
        w.zero = a[6].starts_with('z');
        w.fail = Fail::parse(&a[6][1..]);
    }
    let ok = caught(|| macho::write_into(&build(a), &mut w)).is_some();
    format!("{{\"ok\":{},\"file\":{}}}", ok, jbytes(&w.got))
}

/// writes an object and reads it back with the library's own readers
pub fn dump(a: &[&str]) -> String {
    let mut w = ChunkWriter::new(a[5].parse().unwrap());
    caught(|| {
        macho::write_into(&build(a), &mut w);
        crate::mac::dump(&w.got, w.chunk)
    })
    .unwrap_or_else(|| "{\"ok\":false,\"hdr\":[],\"pos\":0,\"sects\":[],\"syms\":[]}".to_string())
}

/// the same for sections of any size: TEXTLEN DATALEN BSSSIZE SYMS RELOCS MARKS, MARKS: sect,at,hex ; ...
/// (all other bytes are zero); of the file the runs of bytes that are not zero are reported
pub fn big(a: &[&str]) -> String {
    let mut o = build(&["-", "-", a[2], a[3], a[4]]);
    o.sections.text.bytes = vec![0; a[0].parse().unwrap()];
    o.sections.data.bytes = vec![0; a[1].parse().unwrap()];
    for m in a[5].split(';').filter(|s| *s != "-" && !s.is_empty()) {
        let f: Vec<&str> = m.split(',').collect();
        let b = unhex(f[2]);
        let at: usize = f[1].parse().unwrap();
        let sect = match f[0] {
            "t" => &mut o.sections.text.bytes,
            _ => &mut o.sections.data.bytes,
        };
        sect[at..at + b.len()].copy_from_slice(&b);
    }
    let mut w = Sparse::new();
    let ok = caught(|| macho::write_into(&o, &mut w)).is_some();
    format!("{{\"ok\":{},\"file\":{}}}", ok, w.json())
}

fn build(a: &[&str]) -> Object {
    let mut o = Object::new();
    o.sections.text.bytes = unhex(a[0]);
    o.sections.data.bytes = unhex(a[1]);
    o.sections.bss.size = a[2].parse().unwrap();
    for s in a[3].split(';').filter(|s| *s != "-" && !s.is_empty()) {
        let f: Vec<&str> = s.split(',').collect();
        let name = name(f[2]);
        let val = f[3].parse().unwrap();
        let ext = f[4] == "1";
        let sym = match f[1] {
            "U" => Symbol::Undef { name },
            "A" => Symbol::Abs { name, val, ext },
            _ => Symbol::Ref {
                name,
                addr: val,
                ext,
            },
        };
        match f[0] {
            "t" => o.sections.text.symbols.push(sym),
            "d" => o.sections.data.symbols.push(sym),
            _ => o.sections.bss.symbols.push(sym),
        }
    }
    for s in a[4].split(';').filter(|s| *s != "-" && !s.is_empty()) {
        let f: Vec<&str> = s.split(',').collect();
        let r = Reloc {
            addr: f[1].parse().unwrap(),
            symbol: name(f[2]),
            pcrel: f[3] == "1",
            len: f[4].parse().unwrap(),
        };
        match f[0] {
            "t" => o.sections.text.relocs.push(r),
            _ => o.sections.data.relocs.push(r),
        }
    }
    o
}
