#![allow(dead_code, unused_imports, deprecated)]
//! Deterministic simulation of the bonding-curve program: see /verif/DESIGN.md.
//!
//!   dbc-sim check --property C01 --tier quick|thorough [--seed N] [--runs N] [--out DIR]
//!   dbc-sim replay FILE
//!   dbc-sim selftest
//!   dbc-sim explore C01 RUNS FROM        (triage: all signatures of a profile)
mod abi;
mod check;
mod fan;
mod model;
mod old;
mod oracle;
mod progs;
mod rt;
mod run;
mod sim;
mod smoke;
mod sweep;
mod world;
use std::io::Write;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// Program logs go to stdout through a path no stub covers; the harness keeps its own copy of
/// stdout and sends the programs' to /dev/null.
fn silence() -> std::fs::File {
    use std::os::fd::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let keep = dup(1);
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(keep)
    }
}

fn main() {
    let mut so = silence();
    rt::install();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str| opt(n).and_then(|s| s.parse::<u64>().ok());
    let code = match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "check" => {
            let o = check::Opts {
                property: opt("--property").unwrap_or_default(),
                tier: opt("--tier").unwrap_or("quick".into()),
                seed: num("--seed").unwrap_or(1),
                runs: num("--runs"),
                threads: num("--threads").unwrap_or(0),
                dir: opt("--out").unwrap_or("/verif".into()),
            };
            check::check(&mut so, &o)
        }
        "replay" => check::replay(&mut so, a.get(2).map(|s| s.as_str()).unwrap_or("")),
        "selftest" => check::selftest(&mut so),
        "smoke" => {
            smoke::smoke();
            0
        }
        "explore" => {
            let prop = a.get(2).cloned().unwrap_or_default();
            let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(20);
            let from: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(0);
            check::explore(&mut so, &prop, n, from)
        }
        "matrix" => check::matrix(&mut so, a.get(2).and_then(|s| s.parse().ok()).unwrap_or(100), a.get(3..).unwrap_or(&[])),
        _ => {
            let _ = writeln!(so, "usage: dbc-sim check|replay|selftest|explore ...");
            2
        }
    };
    let _ = so.flush();
    std::process::exit(code);
}
