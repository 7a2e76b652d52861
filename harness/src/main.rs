//! Conformance harness: executes requests (one per line on stdin) on the real
//! crates and reports what they did (one JSON object per line on stdout).
//! It judges nothing; every verdict is TLC's, on the traces made from these replies.
mod asm;
mod mac;
mod obj;
mod util;
mod x64;

use std::io::{self, BufRead, Write};

fn main() {
    // requests are read completely before the first fork
    let stdin = io::stdin();
    let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
    let quiet = std::env::var("VH_PANIC_MSG").is_err();
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let out = io::stdout();
    for line in &lines {
        let mut it = line.splitn(2, ' ');
        let cmd = it.next().unwrap();
        let args: Vec<&str> = it
            .next()
            .unwrap_or("")
            .split(' ')
            .filter(|s| !s.is_empty())
            .collect();
        let reply = match cmd {
            "host" => format!(
                "{{\"host\":\"{}\"}}",
                if cfg!(target_endian = "big") {
                    "big"
                } else {
                    "little"
                }
            ),
            "x64" => x64::run(&args),
            "regs" => x64::regs(),
            "bam" => x64::bam(&args),
            "asm" => asm::run(&args),
            "obj" => obj::run(&args),
            "long" => asm::long(&args),
            "big" => obj::big(&args),
            "dump" => obj::dump(&args),
            "rec" => mac::rec(&args),
            "wrrec" => mac::wrrec(&args),
            "rdrec" => mac::rdrec(&args),
            "lcs" => mac::lcs(&args),
            "str" => mac::strtab(&args),
            "code" => mac::code(&args),
            "scan" => mac::scan(&args),
            _ => panic!("unknown command {}", cmd),
        };
        let mut o = out.lock();
        o.write_all(reply.as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
