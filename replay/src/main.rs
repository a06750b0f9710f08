//! replay <harness> <mode> <hex input> : run one harness natively on the given input.
//! sample <harness> <mode> <n> <seed>  : run it on n pseudo-random inputs.
//! Prints one of REPRODUCED / NOT-REPRODUCED / INFEASIBLE (or a count), exit code always 0 unless
//! the process is killed by the failure itself (abort, signal).
use harness::nd::{Assume, Nd, LEN};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Out {
    Ok,
    Infeasible,
    Bound,
    Failed(String),
}

fn run(f: fn(&mut Nd), b: [u8; LEN], mode: &str) -> Out {
    harness::env::reset();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut nd = Nd::new(b);
        f(&mut nd)
    }));
    match r {
        Ok(()) => Out::Ok,
        Err(p) => {
            if p.is::<Assume>() {
                return Out::Infeasible;
            }
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            if m.contains("BOUND:") || m.contains("CUT:") {
                Out::Bound
            } else if mode == "proponly" && !m.contains("PROP:") {
                Out::Ok
            } else {
                Out::Failed(m)
            }
        }
    }
}

fn main() {
    let arg = |i| std::env::args().nth(i).unwrap();
    let (name, mode) = (&arg(2), &arg(3));
    let f = harness::find(name).unwrap_or_else(|| panic!("no harness {}", name));
    if arg(1) == "replay" {
        let mut b = [0u8; LEN];
        let hex = arg(4);
        for (i, x) in b.iter_mut().enumerate() {
            if 2 * i + 2 <= hex.len() {
                *x = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap();
            }
        }
        let tries: u32 = std::env::var("REPLAY_TRIES").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
        let mut res = "NOT-REPRODUCED".to_string();
        for _ in 0..tries {
            match run(f, b, mode) {
                Out::Failed(m) => {
                    res = format!("REPRODUCED {}", m);
                    break;
                }
                Out::Infeasible => res = "INFEASIBLE".into(),
                _ => {}
            }
        }
        println!("{}", res);
    } else {
        std::panic::set_hook(Box::new(|_| {}));
        let n: u64 = arg(4).parse().unwrap();
        let mut s: u64 = arg(5).parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1;
        harness::nd::set_sampling(true);
        let (mut ok, mut inf) = (0, 0);
        for _ in 0..n {
            let mut b = [0u8; LEN];
            for x in b.iter_mut() {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                *x = (s >> 24) as u8;
            }
            match run(f, b, mode) {
                Out::Ok => ok += 1,
                Out::Infeasible | Out::Bound => inf += 1,
                Out::Failed(m) => {
                    println!("FAILED {} input={}", m, b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
                    return;
                }
            }
        }
        println!("SAMPLED ok={} infeasible={}", ok, inf);
    }
}
