use crate::util::*;
use at_x64::{
    instruction::*,
    mem::Mem64,
    reg::{Reg, Reg16, Reg32, Reg64, Reg8},
    BytesAtMost,
};

/// in the order of the hardware register numbers 0..15
pub const R64: [Reg64; 16] = [
    Reg64::RAX,
    Reg64::RCX,
    Reg64::RDX,
    Reg64::RBX,
    Reg64::RSP,
    Reg64::RBP,
    Reg64::RSI,
    Reg64::RDI,
    Reg64::R8,
    Reg64::R9,
    Reg64::R10,
    Reg64::R11,
    Reg64::R12,
    Reg64::R13,
    Reg64::R14,
    Reg64::R15,
];
pub const R32: [Reg32; 16] = [
    Reg32::EAX,
    Reg32::ECX,
    Reg32::EDX,
    Reg32::EBX,
    Reg32::ESP,
    Reg32::EBP,
    Reg32::ESI,
    Reg32::EDI,
    Reg32::R8D,
    Reg32::R9D,
    Reg32::R10D,
    Reg32::R11D,
    Reg32::R12D,
    Reg32::R13D,
    Reg32::R14D,
    Reg32::R15D,
];
pub const R16: [Reg16; 16] = [
    Reg16::AX,
    Reg16::CX,
    Reg16::DX,
    Reg16::BX,
    Reg16::SP,
    Reg16::BP,
    Reg16::SI,
    Reg16::DI,
    Reg16::R8W,
    Reg16::R9W,
    Reg16::R10W,
    Reg16::R11W,
    Reg16::R12W,
    Reg16::R13W,
    Reg16::R14W,
    Reg16::R15W,
];
pub const R8: [Reg8; 16] = [
    Reg8::AL,
    Reg8::CL,
    Reg8::DL,
    Reg8::BL,
    Reg8::SPL,
    Reg8::BPL,
    Reg8::SIL,
    Reg8::DIL,
    Reg8::R8B,
    Reg8::R9B,
    Reg8::R10B,
    Reg8::R11B,
    Reg8::R12B,
    Reg8::R13B,
    Reg8::R14B,
    Reg8::R15B,
];

fn n(s: &str) -> usize {
    s.parse().unwrap()
}
fn u(s: &str) -> u64 {
    s.parse().unwrap()
}

/// mem: "ro BASE DISP" | "rip DISP" | "sib BASE|- DISP INDEX SCALE"
fn mem(a: &[&str]) -> Mem64 {
    match a[0] {
        "reg" => Mem64::reg(R64[n(a[1])]),
        "ro" => Mem64::reg_offset(R64[n(a[1])], u(a[2]) as u32),
        "rip" => Mem64::rip_offset(u(a[1]) as u32),
        "sib" => {
            let base = if a[1] == "-" {
                None
            } else {
                Some(R64[n(a[1])])
            };
            Mem64::sib(base, u(a[2]) as u32, R64[n(a[3])], u(a[4]) as u8)
        }
        _ => panic!("mem"),
    }
}

fn out<I: Instruction>(i: I) -> (Vec<u8>, i64) {
    (i.bytecode().as_ref().to_vec(), -1)
}

fn exec(a: &[&str]) -> (Vec<u8>, i64) {
    match (a[0], a.get(1).copied().unwrap_or("")) {
        ("rr", "64") => out(Mov::new(R64[n(a[2])], R64[n(a[3])])),
        ("rr", "32") => out(Mov::new(R32[n(a[2])], R32[n(a[3])])),
        ("rr", "16") => out(Mov::new(R16[n(a[2])], R16[n(a[3])])),
        ("ri", "64") => {
            let i = Mov::new(R64[n(a[2])], u(a[3]));
            let off = i.offset_to_imm_bytes();
            (out(i).0, off as i64)
        }
        ("ri", "32") => {
            let i = Mov::new(R32[n(a[2])], u(a[3]) as u32);
            let off = i.offset_to_imm_bytes();
            (out(i).0, off as i64)
        }
        ("ri", "16") => out(Mov::new(R16[n(a[2])], u(a[3]) as u16)),
        ("mr", _) => out(Mov::new(mem(&a[2..]), R64[n(a[1])])),
        ("lea", _) => out(Lea::new(R64[n(a[1])], mem(&a[2..]))),
        ("pushr", "64") => out(Push::new(R64[n(a[2])])),
        ("pushr", "16") => out(Push::new(R16[n(a[2])])),
        ("popr", "64") => out(Pop::new(R64[n(a[2])])),
        ("popr", "16") => out(Pop::new(R16[n(a[2])])),
        ("pushi", "8") => out(Push::new(u(a[2]) as u8)),
        ("pushi", "16") => out(Push::new(u(a[2]) as u16)),
        ("pushi", "32") => out(Push::new(u(a[2]) as u32)),
        ("ret", _) => out(Ret::new()),
        ("syscall", _) => out(Syscall::new()),
        _ => panic!("x64 request"),
    }
}

pub fn run(a: &[&str]) -> String {
    match caught(|| exec(a)) {
        Some((b, off)) => format!("{{\"ok\":true,\"out\":{},\"off\":{}}}", jbytes(&b), off),
        None => "{\"ok\":false,\"out\":[],\"off\":-1}".to_string(),
    }
}

/// every register: printed name, number facts, widening
pub fn regs() -> String {
    let mut v = Vec::new();
    for i in 0..16 {
        let wide64 = |r: Reg64| R64.iter().position(|x| *x == r).unwrap();
        let r = R64[i];
        v.push(format!(
            "{{\"w\":64,\"num\":{},\"name\":{},\"anyname\":{},\"wide\":{}}}",
            i,
            jstr(&r.to_string()),
            jstr(&Reg::Reg64(r).to_string()),
            i
        ));
        let r = R32[i];
        v.push(format!(
            "{{\"w\":32,\"num\":{},\"name\":{},\"anyname\":{},\"wide\":{}}}",
            i,
            jstr(&r.to_string()),
            jstr(&Reg::Reg32(r).to_string()),
            wide64(r.to_reg64())
        ));
        let r = R16[i];
        v.push(format!(
            "{{\"w\":16,\"num\":{},\"name\":{},\"anyname\":{},\"wide\":{}}}",
            i,
            jstr(&r.to_string()),
            jstr(&Reg::Reg16(r).to_string()),
            wide64(r.to_reg32().to_reg64())
        ));
        let r = R8[i];
        v.push(format!(
            "{{\"w\":8,\"num\":{},\"name\":{},\"anyname\":{},\"wide\":{}}}",
            i,
            jstr(&r.to_string()),
            jstr(&Reg::Reg8(r).to_string()),
            i
        ));
    }
    format!("{{\"regs\":[{}]}}", v.join(","))
}

fn bam_make<const M: usize>(kind: &str, val: &str) -> Option<BytesAtMost<M>> {
    caught(|| match kind {
        "len" => BytesAtMost::<M>::with_len(n(val)),
        "u8" => BytesAtMost::<M>::from(u(val) as u8),
        "u16" => BytesAtMost::<M>::from(u(val) as u16),
        "u32" => BytesAtMost::<M>::from(u(val) as u32),
        "u64" => BytesAtMost::<M>::from(u(val)),
        // through the mutable view
        "mut" => {
            let b = unhex(val);
            let mut x = BytesAtMost::<M>::with_len(b.len());
            x.as_mut().copy_from_slice(&b);
            x
        }
        "arr" => {
            let b = unhex(val);
            macro_rules! arr {
                ($($k:literal)*) => {
                    match b.len() {
                        $($k => { let mut a = [0u8; $k]; a.copy_from_slice(&b); BytesAtMost::<M>::from(a) })*
                        _ => panic!("arr"),
                    }
                };
            }
            arr!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
        }
        _ => unreachable!(),
    })
}

fn bam_m<const M: usize>(a: &[&str]) -> String {
    let x = bam_make::<M>(a[0], a[1]);
    let y = bam_make::<M>(a[2], a[3]);
    let show = |v: &Option<BytesAtMost<M>>| match v {
        Some(b) => format!(
            "{{\"ok\":true,\"b\":{},\"len\":{},\"empty\":{}}}",
            jbytes(b.as_ref()),
            b.len(),
            b.is_empty()
        ),
        None => "{\"ok\":false,\"b\":[],\"len\":0,\"empty\":true}".to_string(),
    };
    let eq = match (&x, &y) {
        (Some(x), Some(y)) => x == y,
        _ => false,
    };
    format!("{{\"x\":{},\"y\":{},\"eq\":{}}}", show(&x), show(&y), eq)
}

/// bam CAP KIND VAL KIND VAL
pub fn bam(a: &[&str]) -> String {
    match a[0] {
        "1" => bam_m::<1>(&a[1..]),
        "2" => bam_m::<2>(&a[1..]),
        "3" => bam_m::<3>(&a[1..]),
        "4" => bam_m::<4>(&a[1..]),
        "5" => bam_m::<5>(&a[1..]),
        "7" => bam_m::<7>(&a[1..]),
        "8" => bam_m::<8>(&a[1..]),
        "9" => bam_m::<9>(&a[1..]),
        "15" => bam_m::<15>(&a[1..]),
        "16" => bam_m::<16>(&a[1..]),
        _ => panic!("cap"),
    }
}
