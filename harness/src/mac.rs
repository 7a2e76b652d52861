//! at-mac: records, load commands, string tables, coded constants.
//! A record is exchanged as the list of its fields in declaration order; a number
//! is reported as its little-endian bytes, a constant by its name, a set as a list of names.
use crate::util::*;
use at_mac::{
    header::*,
    load_command::{build_version::*, dysymtab::*, segment64::*, symtab::*, LoadCommand},
    nlist::*,
    reloc::*,
    string_table::StringTable,
};
use std::fmt::Debug;

macro_rules! names {
    ($f:ident, $t:ident, $($v:ident)*) => {
        fn $f(s: &str) -> $t {
            match s {
                $(stringify!($v) => $t::$v,)*
                _ => panic!("name {}", s),
            }
        }
    };
}
names!(magic, Magic, Magic64 Cigam64 Magic Cigam FatMagic FatCigam);
names!(file_type, FileType, Object Execute FVMLib Core Preload Dylib Dylinker Bundle Dsym);
names!(flag, Flag, NoUndefs IncrLink DyldLink BindAtLoad PreBound SplitSegs TwoLevel ForceFlat NoMultiDefs
    NoFixPreBinding PreBindable AllModsBound SubsectionsViaSymbols Canonical Pie HasTlvDescriptors);
names!(sect_type, SectionType, Regular Zerofill CstringLiterals FourByteLiterals EightByteLiterals
    LiteralPointers Coalesced);
names!(sect_attr, SectionAttr, PureInstructions NoToc StripStaticSyms LiveSupport Debug SomeInstructions
    ExtReloc LocReloc);
names!(ntype, NType, Undf Abs Sect Pbud Indr);
names!(stab, DebugSymbol, Gsym);
names!(reloc_len, RelocLength, Byte Word Long Quad);
names!(x86_type, X86RelocType, Vanilla Pair Sectdiff PbLaPtr LocalSectdiff Tlv);
names!(x64_type, X86_64RelocType, Unsigned Signed Branch GotLoad Got Subtractor Signed1 Signed2 Signed4 Tlv);
names!(platform, Platform, MacOS IOS TvOS WatchOS BridgeOS MacCatalyst IOSSimulator TvOSSimulator
    WatchOSSimulator Driverkit);
names!(tool, Tool, Clang Swift LD);

fn cpu(s: &str) -> CpuType {
    match s {
        "X86" => CpuType::X86(CpuSubTypeX86::All),
        "X86_64" => CpuType::X86_64(CpuSubTypeX86_64::All),
        _ => panic!("cpu {}", s),
    }
}
fn parts(s: &str) -> impl Iterator<Item = &str> {
    s.split('+').filter(|x| *x != "-")
}
fn flags(s: &str) -> Flags {
    let mut f = Flags::new();
    for p in parts(s) {
        f.push(flag(p));
    }
    f
}
fn attrs(s: &str) -> SectionAttrs {
    let mut f = SectionAttrs::new();
    for p in parts(s) {
        f.push(sect_attr(p));
    }
    f
}
fn ntypefield(s: &str) -> NTypeField {
    let f: Vec<&str> = s.split(':').collect();
    match f[0] {
        "Stab" => NTypeField::Stab(stab(f[1])),
        _ => NTypeField::Norm {
            n_pext: f[1] == "1",
            n_type: ntype(f[2]),
            n_ext: f[3] == "1",
        },
    }
}

// ---- reporting -----------------------------------------------------------

fn jn32(n: u32) -> String {
    jbytes(&n.to_le_bytes())
}
fn ji32(n: i32) -> String {
    jbytes(&n.to_le_bytes())
}
fn jn64(n: u64) -> String {
    jbytes(&n.to_le_bytes())
}
fn jb(b: bool) -> String {
    jbytes(&[b as u8])
}
fn jname(x: impl Debug) -> String {
    jstr(&format!("{:?}", x))
}
fn jascii(s: &str) -> String {
    jbytes(s.as_bytes())
}
fn jcpu(c: CpuType) -> String {
    jstr(match c {
        CpuType::X86(CpuSubTypeX86::All) => "X86",
        CpuType::X86_64(CpuSubTypeX86_64::All) => "X86_64",
    })
}
fn jntf(t: NTypeField) -> String {
    match t {
        NTypeField::Stab(s) => format!("[\"Stab\",{}]", jname(s)),
        NTypeField::Norm {
            n_pext,
            n_type,
            n_ext,
        } => {
            format!("[\"Norm\",{},{},{}]", jname(n_type), jb(n_pext), jb(n_ext))
        }
    }
}
fn jver(v: Version) -> String {
    format!(
        "[{},{},{}]",
        jbytes(&v.major.to_le_bytes()),
        jbytes(&[v.minor]),
        jbytes(&[v.release])
    )
}
fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

fn f_header(h: &Header64) -> String {
    list(vec![
        jname(h.magic),
        jcpu(h.cpu_type),
        jname(h.file_type),
        jn32(h.n_cmds),
        jn32(h.size_of_cmds),
        jn32(h.flags.to_u32()),
        jn32(h.reserved),
    ])
}
fn f_seg(s: &SegmentCommand64) -> String {
    list(vec![
        jn32(s.cmd),
        jn32(s.cmdsize),
        jascii(&s.segname),
        jn64(s.vmaddr),
        jn64(s.vmsize),
        jn64(s.fileoff),
        jn64(s.filesize),
        ji32(s.maxprot),
        ji32(s.initprot),
        jn32(s.nsects),
        jn32(s.flags),
    ])
}
fn f_sect(s: &Section64) -> String {
    list(vec![
        jascii(&s.sectname),
        jascii(&s.segname),
        jn64(s.addr),
        jn64(s.size),
        jn32(s.offset),
        jn32(s.align),
        jn32(s.reloff),
        jn32(s.nreloc),
        list(vec![jn32(s.flags.0.to_u32()), jname(s.flags.1)]),
        jn32(s.reserved1),
        jn32(s.reserved2),
        jn32(s.reserved3),
    ])
}
fn f_symtab(s: &SymtabCommand) -> String {
    list(vec![
        jn32(s.cmd),
        jn32(s.cmdsize),
        jn32(s.symoff),
        jn32(s.nsyms),
        jn32(s.stroff),
        jn32(s.strsize),
    ])
}
fn f_dysymtab(s: &DysymtabCommand) -> String {
    list(vec![
        jn32(s.cmd),
        jn32(s.cmdsize),
        jn32(s.ilocalsym),
        jn32(s.nlocalsym),
        jn32(s.iextdefsym),
        jn32(s.nextdefsym),
        jn32(s.iundefsym),
        jn32(s.nundefsym),
        jn32(s.tocoff),
        jn32(s.ntoc),
        jn32(s.modtaboff),
        jn32(s.nmodtab),
        jn32(s.extrefsymoff),
        jn32(s.nextrefsyms),
        jn32(s.indirectsymoff),
        jn32(s.nindirectsyms),
        jn32(s.extreloff),
        jn32(s.nextrel),
        jn32(s.locreloff),
        jn32(s.nlocrel),
    ])
}
fn f_build(s: &BuildVersionCommand) -> String {
    list(vec![
        jn32(s.cmd),
        jn32(s.cmdsize),
        jname(s.platform),
        jver(s.minos),
        jver(s.sdk),
        jn32(s.ntools),
    ])
}
fn f_tool(s: &BuildToolVersion) -> String {
    list(vec![jname(s.tool), jn32(s.version)])
}
fn f_nlist(s: &NList64) -> String {
    list(vec![
        jn32(s.n_strx),
        jntf(s.n_type),
        jbytes(&[s.n_sect]),
        jbytes(&s.n_desc.to_le_bytes()),
        jn64(s.n_value),
    ])
}
fn f_reloc(s: &RelocationInfo) -> String {
    list(vec![
        ji32(s.r_address),
        list(vec![
            jn32(s.r_symbolnum),
            jb(s.r_pcrel),
            jname(s.r_length),
            jb(s.r_extern),
            jbytes(&[s.r_type]),
        ]),
    ])
}

// ---- building ------------------------------------------------------------

fn n32(s: &str) -> u32 {
    s.parse::<u64>().unwrap() as u32
}
fn i32_(s: &str) -> i32 {
    n32(s) as i32
}
fn n64(s: &str) -> u64 {
    s.parse().unwrap()
}
fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}
fn ver(s: &str) -> Version {
    let f: Vec<u32> = s.split('.').map(|x| x.parse().unwrap()).collect();
    Version {
        major: f[0] as u16,
        minor: f[1] as u8,
        release: f[2] as u8,
    }
}
fn m_header(a: &[&str]) -> Header64 {
    Header64 {
        magic: magic(a[0]),
        cpu_type: cpu(a[1]),
        file_type: file_type(a[2]),
        n_cmds: n32(a[3]),
        size_of_cmds: n32(a[4]),
        flags: flags(a[5]),
        reserved: n32(a[6]),
    }
}
fn m_seg(a: &[&str]) -> SegmentCommand64 {
    SegmentCommand64 {
        cmd: n32(a[0]),
        cmdsize: n32(a[1]),
        segname: text(a[2]),
        vmaddr: n64(a[3]),
        vmsize: n64(a[4]),
        fileoff: n64(a[5]),
        filesize: n64(a[6]),
        maxprot: i32_(a[7]),
        initprot: i32_(a[8]),
        nsects: n32(a[9]),
        flags: n32(a[10]),
    }
}
fn m_sect(a: &[&str]) -> Section64 {
    Section64 {
        sectname: text(a[0]),
        segname: text(a[1]),
        addr: n64(a[2]),
        size: n64(a[3]),
        offset: n32(a[4]),
        align: n32(a[5]),
        reloff: n32(a[6]),
        nreloc: n32(a[7]),
        flags: (attrs(a[8]), sect_type(a[9])),
        reserved1: n32(a[10]),
        reserved2: n32(a[11]),
        reserved3: n32(a[12]),
    }
}
fn m_symtab(a: &[&str]) -> SymtabCommand {
    SymtabCommand {
        cmd: n32(a[0]),
        cmdsize: n32(a[1]),
        symoff: n32(a[2]),
        nsyms: n32(a[3]),
        stroff: n32(a[4]),
        strsize: n32(a[5]),
    }
}
fn m_dysymtab(a: &[&str]) -> DysymtabCommand {
    DysymtabCommand {
        cmd: n32(a[0]),
        cmdsize: n32(a[1]),
        ilocalsym: n32(a[2]),
        nlocalsym: n32(a[3]),
        iextdefsym: n32(a[4]),
        nextdefsym: n32(a[5]),
        iundefsym: n32(a[6]),
        nundefsym: n32(a[7]),
        tocoff: n32(a[8]),
        ntoc: n32(a[9]),
        modtaboff: n32(a[10]),
        nmodtab: n32(a[11]),
        extrefsymoff: n32(a[12]),
        nextrefsyms: n32(a[13]),
        indirectsymoff: n32(a[14]),
        nindirectsyms: n32(a[15]),
        extreloff: n32(a[16]),
        nextrel: n32(a[17]),
        locreloff: n32(a[18]),
        nlocrel: n32(a[19]),
    }
}
fn m_build(a: &[&str]) -> BuildVersionCommand {
    BuildVersionCommand {
        cmd: n32(a[0]),
        cmdsize: n32(a[1]),
        platform: platform(a[2]),
        minos: ver(a[3]),
        sdk: ver(a[4]),
        ntools: n32(a[5]),
    }
}
fn m_tool(a: &[&str]) -> BuildToolVersion {
    BuildToolVersion {
        tool: tool(a[0]),
        version: n32(a[1]),
    }
}
fn m_nlist(a: &[&str]) -> NList64 {
    NList64 {
        n_strx: n32(a[0]),
        n_type: ntypefield(a[1]),
        n_sect: n32(a[2]) as u8,
        n_desc: n32(a[3]) as u16,
        n_value: n64(a[4]),
    }
}
fn m_reloc(a: &[&str]) -> RelocationInfo {
    RelocationInfo {
        r_address: i32_(a[0]),
        r_symbolnum: n32(a[1]),
        r_pcrel: a[2] == "1",
        r_length: reloc_len(a[3]),
        r_extern: a[4] == "1",
        r_type: n32(a[5]) as u8,
    }
}

/// bytes of a header in the given order, to obtain the library's byte-order value
fn probe(big: bool) -> Vec<u8> {
    let words: [u32; 8] = [0xfeedfacf, 0x01000007, 3, 1, 0, 0, 0, 0];
    words
        .iter()
        .flat_map(|w| {
            if big {
                w.to_be_bytes().to_vec()
            } else {
                w.to_le_bytes().to_vec()
            }
        })
        .collect()
}

const TRAIL: [u8; 3] = [0xee, 0xdd, 0xcc];
/// the byte order of the machine this runs on
const HOST_BIG: bool = cfg!(target_endian = "big");

/// a stream of these bytes, with something behind them, or (`fail` given) with nothing behind them
struct Tap {
    bytes: Vec<u8>,
    chunk: usize,
    fail: Option<Fail>,
}

impl Tap {
    fn new(bytes: &[u8], chunk: &str, fail: Option<&&str>) -> Tap {
        let trail: &[u8] = if fail.is_none() { &TRAIL } else { &[] };
        Tap {
            bytes: bytes.iter().chain(trail).copied().collect(),
            chunk: chunk.parse().unwrap(),
            fail: fail.and_then(|f| Fail::parse(f)),
        }
    }
    fn open(&self) -> ChunkReader<'_> {
        ChunkReader {
            data: &self.bytes,
            pos: 0,
            chunk: self.chunk,
            fail: self.fail,
        }
    }
}

/// reads one record of the given type; (fields, bytes consumed, byte order seen)
fn read_any(ty: &str, big: bool, tap: &Tap) -> Option<(String, usize, &'static str)> {
    caught(|| {
        let mut r = tap.open();
        let mut order = "";
        let f = if ty == "header" {
            let (h, e) = Header64::read_from(&mut r);
            order = match format!("{:?}", e).as_str() {
                "Little" => "little",
                "Big" => "big",
                _ => "?",
            };
            f_header(&h)
        } else {
            let (_, e) = Header64::read_from(&mut probe(big).as_slice());
            match ty {
                "seg" => f_seg(&SegmentCommand64::read_from_in(&mut r, e)),
                "sect" => f_sect(&Section64::read_from_in(&mut r, e)),
                "symtab" => f_symtab(&SymtabCommand::read_from_in(&mut r, e)),
                "dysymtab" => f_dysymtab(&DysymtabCommand::read_from_in(&mut r, e)),
                "build" => f_build(&BuildVersionCommand::read_from_in(&mut r, e)),
                "tool" => f_tool(&BuildToolVersion::read_from_in(&mut r, e)),
                "nlist" => f_nlist(&NList64::read_from_in(&mut r, e)),
                "reloc" => f_reloc(&RelocationInfo::read_from_in(&mut r, e)),
                _ => panic!("type"),
            }
        };
        (f, r.pos, order)
    })
}

fn jread(r: Option<(String, usize, &'static str)>) -> String {
    match r {
        Some((f, n, o)) => format!(
            "{{\"ok\":true,\"f\":{},\"used\":{},\"order\":\"{}\"}}",
            f, n, o
        ),
        None => "{\"ok\":false,\"f\":[],\"used\":0,\"order\":\"\"}".to_string(),
    }
}

/// rec TYPE FIELD...: builds the record, writes it, reads it back in the machine's order
pub fn rec(a: &[&str]) -> String {
    let ty = a[0];
    let v = &a[1..];
    let mut out: Vec<u8> = Vec::new();
    let mut fields = String::from("[]");
    let mut size = 0;
    let mut eq = false;
    let w = caught(|| {
        macro_rules! go {
            ($m:ident, $f:ident, $t:ident) => {{
                let x = $m(v);
                fields = $f(&x);
                size = $t::SIZE;
                x.clone().write_into(&mut out);
                let (_, e) = Header64::read_from(&mut probe(HOST_BIG).as_slice());
                eq = caught(|| $t::read_from_in(&mut out.as_slice(), e) == x).unwrap_or(false);
            }};
        }
        match ty {
            "header" => {
                let x = m_header(v);
                fields = f_header(&x);
                size = Header64::SIZE;
                x.write_into(&mut out);
                eq = caught(|| Header64::read_from(&mut out.as_slice()).0 == x).unwrap_or(false);
            }
            "seg" => go!(m_seg, f_seg, SegmentCommand64),
            "sect" => go!(m_sect, f_sect, Section64),
            "symtab" => go!(m_symtab, f_symtab, SymtabCommand),
            "dysymtab" => go!(m_dysymtab, f_dysymtab, DysymtabCommand),
            "build" => go!(m_build, f_build, BuildVersionCommand),
            "tool" => go!(m_tool, f_tool, BuildToolVersion),
            "nlist" => go!(m_nlist, f_nlist, NList64),
            "reloc" => go!(m_reloc, f_reloc, RelocationInfo),
            _ => panic!("type"),
        }
    })
    .is_some();
    let back = jread(if w {
        read_any(ty, HOST_BIG, &Tap::new(&out, "0", None))
    } else {
        None
    });
    let back1 = jread(if w {
        read_any(ty, HOST_BIG, &Tap::new(&out, "1", None))
    } else {
        None
    });
    format!(
        "{{\"wok\":{},\"given\":{},\"bytes\":{},\"size\":{},\"eq\":{},\"back\":{},\"back1\":{}}}",
        w,
        fields,
        jbytes(&out),
        size,
        eq,
        back,
        back1
    )
}

/// rdrec TYPE little|big HEX CHUNK [FAIL]
pub fn rdrec(a: &[&str]) -> String {
    jread(read_any(
        a[0],
        a[1] == "big",
        &Tap::new(&unhex(a[2]), a[3], a.get(4)),
    ))
}

fn sink(fail: &str, chunk: &str) -> ChunkWriter {
    let mut w = ChunkWriter::new(chunk.parse().unwrap());
    if fail != "-" {
        w.zero = fail.starts_with('z');
        w.fail = Fail::parse(&fail[1..]);
    }
    w
}

/// wrrec FAIL CHUNK TYPE FIELD..: writes a record into a stream that may refuse bytes
pub fn wrrec(a: &[&str]) -> String {
    let mut w = sink(a[0], a[1]);
    let v = &a[3..];
    let ok = caught(|| match a[2] {
        "header" => m_header(v).write_into(&mut w),
        "seg" => m_seg(v).write_into(&mut w),
        "sect" => m_sect(v).write_into(&mut w),
        "symtab" => m_symtab(v).write_into(&mut w),
        "dysymtab" => m_dysymtab(v).write_into(&mut w),
        "build" => m_build(v).write_into(&mut w),
        "tool" => m_tool(v).write_into(&mut w),
        "nlist" => m_nlist(v).write_into(&mut w),
        "reloc" => m_reloc(v).write_into(&mut w),
        _ => panic!("type"),
    })
    .is_some();
    format!("{{\"ok\":{},\"got\":{}}}", ok, jbytes(&w.got))
}

fn j_lc(c: &LoadCommand) -> String {
    let (k, f, sub) = match c {
        LoadCommand::Segment64(c, s) => ("seg", f_seg(c), s.iter().map(f_sect).collect()),
        LoadCommand::Symtab(c) => ("symtab", f_symtab(c), vec![]),
        LoadCommand::Dysymtab(c) => ("dysymtab", f_dysymtab(c), vec![]),
        LoadCommand::BuildVersion(c, t) => ("build", f_build(c), t.iter().map(f_tool).collect()),
    };
    format!("{{\"k\":\"{}\",\"f\":{},\"sub\":{}}}", k, f, list(sub))
}

fn read_lcs(big: bool, count: usize, tap: &Tap) -> String {
    let mut ev = Vec::new();
    let mut r = tap.open();
    for _ in 0..count {
        let res = caught(|| {
            let (_, e) = Header64::read_from(&mut probe(big).as_slice());
            let c = LoadCommand::read_from_in(&mut r, e);
            (j_lc(&c), c.cmd(), c.cmd_size())
        });
        match res {
            Some((j, cmd, size)) => ev.push(format!(
                "{{\"ok\":true,\"c\":{},\"pos\":{},\"cmd\":{},\"cmdsize\":{}}}",
                j,
                r.pos,
                jn32(cmd),
                jn32(size)
            )),
            None => {
                ev.push("{\"ok\":false}".to_string());
                break;
            }
        }
    }
    list(ev)
}

/// f FAIL CHUNK ..: writes the commands into a stream that may refuse bytes
/// w: @seg f.. +sect f.. | @symtab f.. | ... : writes the commands one after the other
/// r: little|big N HEX CHUNK: reads N commands
pub fn lcs(a: &[&str]) -> String {
    if a[0] == "r" {
        return format!(
            "{{\"ev\":{}}}",
            read_lcs(
                a[1] == "big",
                a[2].parse().unwrap(),
                &Tap::new(&unhex(a[3]), a[4], a.get(5))
            )
        );
    }
    let mut cmds: Vec<Vec<Vec<&str>>> = Vec::new();
    for t in &a[if a[0] == "f" { 3 } else { 1 }..] {
        if t.starts_with('@') {
            cmds.push(vec![vec![&t[1..]]]);
        } else if *t == "+" {
            cmds.last_mut().unwrap().push(vec![]);
        } else {
            cmds.last_mut().unwrap().last_mut().unwrap().push(t);
        }
    }
    let mut out = ChunkWriter::new(0);
    if a[0] == "f" {
        out = sink(a[1], a[2]);
    }
    let mut ev = Vec::new();
    for c in &cmds {
        let f = &c[0][1..];
        let sub = &c[1..];
        let res = caught(|| {
            let lc = match c[0][0] {
                "seg" => LoadCommand::Segment64(m_seg(f), sub.iter().map(|s| m_sect(s)).collect()),
                "symtab" => LoadCommand::Symtab(m_symtab(f)),
                "dysymtab" => LoadCommand::Dysymtab(m_dysymtab(f)),
                "build" => {
                    LoadCommand::BuildVersion(m_build(f), sub.iter().map(|s| m_tool(s)).collect())
                }
                _ => panic!("kind"),
            };
            lc.write_into(&mut out);
            (j_lc(&lc), lc.cmd(), lc.cmd_size())
        });
        match res {
            Some((j, cmd, size)) => ev.push(format!(
                "{{\"ok\":true,\"c\":{},\"pos\":{},\"cmd\":{},\"cmdsize\":{}}}",
                j,
                out.got.len(),
                jn32(cmd),
                jn32(size)
            )),
            None => {
                ev.push("{\"ok\":false}".to_string());
                break;
            }
        }
    }
    if a[0] == "f" {
        return format!(
            "{{\"done\":{},\"got\":{}}}",
            ev.iter().filter(|e| e.contains("\"ok\":true")).count(),
            jbytes(&out.got)
        );
    }
    format!(
        "{{\"ev\":{},\"back\":{},\"back1\":{}}}",
        list(ev),
        read_lcs(HOST_BIG, cmds.len(), &Tap::new(&out.got, "0", None)),
        read_lcs(HOST_BIG, cmds.len(), &Tap::new(&out.got, "1", None))
    )
}

/// str OP...: n | v:HEX | p:HEX | g:IDX | i | l | b
pub fn strtab(a: &[&str]) -> String {
    let mut t = StringTable::with_null();
    let mut ev = Vec::new();
    for op in a {
        let mut it = op.splitn(2, ':');
        let k = it.next().unwrap();
        let x = it.next().unwrap_or("");
        let r = caught(|| match k {
            "n" => {
                t = StringTable::with_null();
                "{\"e\":\"new\"".to_string()
            }
            "v" => {
                t = StringTable::from(unhex(x));
                format!("{{\"e\":\"from\",\"v\":{}", jbytes(&unhex(x)))
            }
            "p" => {
                t.push_with_null(&text(x));
                format!("{{\"e\":\"push\",\"s\":{}", jbytes(&unhex(x)))
            }
            "g" => format!(
                "{{\"e\":\"get\",\"i\":{},\"s\":{}",
                x,
                jascii(t.get(x.parse().unwrap()))
            ),
            "i" => {
                let v: Vec<String> = t.iter().map(jascii).collect();
                format!("{{\"e\":\"iter\",\"v\":{}", list(v))
            }
            _ => panic!("op"),
        });
        match r {
            Some(s) => {
                let b: &[u8] = t.as_ref();
                // a look-up cannot change the table: its bytes once more at the end only
                let b = if matches!(k, "n" | "v" | "p") || ev.len() + 1 == a.len() {
                    jbytes(b)
                } else {
                    "[]".to_string()
                };
                ev.push(format!("{},\"len\":{},\"bytes\":{}}}", s, t.len(), b))
            }
            None => {
                ev.push(format!("{{\"e\":\"panic\",\"op\":\"{}\"}}", k));
                break;
            }
        }
    }
    format!("{{\"ev\":{}}}", list(ev))
}

/// scan TYPE FROM COUNT: which of the numbers are read as something
pub fn scan(a: &[&str]) -> String {
    let lo = n32(a[1]);
    let mut got = Vec::new();
    for k in 0..n32(a[2]) {
        let n = lo.wrapping_add(k);
        if let Some(v) = from_number(a[0], &n.to_string(), "0") {
            got.push(format!("[{},{}]", jn32(n), v));
        }
    }
    format!("{{\"got\":{}}}", list(got))
}

fn from_number(ty: &str, x: &str, y: &str) -> Option<String> {
    caught(|| {
        Some(match ty {
            "Magic" => jname(Magic::from_u32_checked(n32(x))?),
            "MagicU" => jname(Magic::from_u32(n32(x))),
            "FileType" => jname(FileType::from_u32(n32(x))),
            "Flag" => jname(Flag::from_u32(n32(x))),
            "Flags" => jn32(Flags::from_u32(n32(x)).to_u32()),
            "SectionType" => jname(SectionType::from_u32(n32(x))),
            "SectionAttr" => jname(SectionAttr::from_u32(n32(x))),
            "SectionAttrs" => jn32(SectionAttrs::from_u32(n32(x)).to_u32()),
            "NType" => jname(NType::from_u8(n32(x) as u8)),
            "NTypeField" => jntf(NTypeField::from_u8(n32(x) as u8)),
            "DebugSymbol" => jname(DebugSymbol::from_u8(n32(x) as u8)),
            "RelocLength" => jname(RelocLength::from_u32(n32(x))),
            "X86RelocType" => jname(X86RelocType::from_u8(n32(x) as u8)),
            "X86_64RelocType" => jname(X86_64RelocType::from_u8(n32(x) as u8)),
            "Platform" => jname(Platform::from_u32(n32(x))),
            "Tool" => jname(Tool::from_u32(n32(x))),
            "Version" => jver(Version::from_u32(n32(x))),
            "CpuType" => jcpu(CpuType::from_i32_i32(i32_(x), i32_(y))),
            _ => std::process::abort(),
        })
    })
    .flatten()
}

/// code to TYPE NAME | code from TYPE NUM [NUM]
/// a number is reported as little-endian bytes; a constant by name; none: {"ok":false}
pub fn code(a: &[&str]) -> String {
    let x = a[2];
    if a[0] == "from" {
        return match from_number(a[1], x, a.get(3).copied().unwrap_or("0")) {
            Some(v) => format!("{{\"ok\":true,\"v\":{}}}", v),
            None => "{\"ok\":false}".to_string(),
        };
    }
    let r = caught(|| -> Option<String> {
        Some(match (a[0], a[1]) {
            ("to", "Magic") => jn32(magic(x).to_u32()),
            ("to", "FileType") => jn32(file_type(x).to_u32()),
            ("to", "Flag") => jn32(flag(x).to_u32()),
            ("to", "Flags") => jn32(flags(x).to_u32()),
            ("to", "SectionType") => jn32(sect_type(x).to_u32()),
            ("to", "SectionAttr") => jn32(sect_attr(x).to_u32()),
            ("to", "SectionAttrs") => jn32(attrs(x).to_u32()),
            ("to", "NType") => jbytes(&[ntype(x).to_u8()]),
            ("to", "NTypeField") => jbytes(&[ntypefield(x).to_u8()]),
            ("to", "DebugSymbol") => jbytes(&[stab(x).to_u8()]),
            ("to", "RelocLength") => jn32(reloc_len(x).to_u32()),
            ("to", "X86RelocType") => jbytes(&[x86_type(x).to_u8()]),
            ("to", "X86_64RelocType") => jbytes(&[x64_type(x).to_u8()]),
            ("to", "Platform") => jn32(platform(x).to_u32()),
            ("to", "Tool") => jn32(tool(x).to_u32()),
            ("to", "Version") => jn32(ver(x).to_u32()),
            ("to", "CpuType") => {
                let (t, s) = cpu(x).to_i32_i32();
                format!("[{},{}]", ji32(t), ji32(s))
            }
            _ => panic!("code request"),
        })
    });
    match r {
        Some(Some(v)) => format!("{{\"ok\":true,\"v\":{}}}", v),
        _ => "{\"ok\":false}".to_string(),
    }
}

/// an object file seen through the readers of this library
pub fn dump(file: &[u8], chunk: usize) -> String {
    let at = |pos: usize| ChunkReader {
        data: file,
        pos,
        chunk,
        fail: None,
    };
    let mut r = at(0);
    let (h, e) = Header64::read_from(&mut r);
    let cmds: Vec<LoadCommand> = (0..h.n_cmds)
        .map(|_| LoadCommand::read_from_in(&mut r, e))
        .collect();
    let pos = r.pos;
    let (mut sects, mut syms) = (Vec::new(), Vec::new());
    for c in &cmds {
        match c {
            LoadCommand::Segment64(_, ss) => {
                for s in ss {
                    let o = s.offset as usize;
                    let bytes = match s.flags.1 {
                        SectionType::Zerofill => &[][..],
                        _ => &file[o..o + s.size as usize],
                    };
                    let mut r = at(s.reloff as usize);
                    let rs = (0..s.nreloc)
                        .map(|_| f_reloc(&RelocationInfo::read_from_in(&mut r, e)))
                        .collect();
                    sects.push(format!(
                        "{{\"f\":{},\"bytes\":{},\"relocs\":{}}}",
                        f_sect(s),
                        jbytes(bytes),
                        list(rs)
                    ));
                }
            }
            LoadCommand::Symtab(s) => {
                let o = s.stroff as usize;
                let strs = StringTable::from(file[o..o + s.strsize as usize].to_vec());
                let mut r = at(s.symoff as usize);
                for _ in 0..s.nsyms {
                    let n = NList64::read_from_in(&mut r, e);
                    let name = caught(|| strs.get(n.n_strx as usize));
                    syms.push(format!(
                        "{{\"f\":{},\"ok\":{},\"name\":{}}}",
                        f_nlist(&n),
                        name.is_some(),
                        jascii(name.unwrap_or(""))
                    ));
                }
            }
            _ => {}
        }
    }
    format!(
        "{{\"ok\":true,\"hdr\":{},\"pos\":{},\"sects\":{},\"syms\":{}}}",
        f_header(&h),
        pos,
        list(sects),
        list(syms)
    )
}
