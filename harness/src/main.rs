mod engine;
mod oracle;
mod props;
mod selftest;

use engine::*;
use std::io::Write;

#[global_allocator]
static ALLOC: Meter = Meter;

fn arg<'a>(a: &'a [String], name: &str) -> Option<&'a str> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}
fn num(a: &[String], name: &str, d: u64) -> u64 {
    arg(a, name).map(|s| s.parse().expect("number")).unwrap_or(d)
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    // the default stack size of a Rust thread, whatever the shell's limits are
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || real_main(a)).expect("thread").join();
    match r {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            eprintln!("VP-HARNESS-ERROR main thread panicked");
            std::process::exit(2)
        }
    }
}

fn real_main(a: Vec<String>) -> i32 {
    let all = props::all();
    let find = |id: &str| *all.iter().find(|p| p.id == id).expect("unknown property");
    match a.first().map(|s| s.as_str()) {
        Some("selftest") => match selftest::run() {
            Ok(n) => {
                println!("selftest ok: {n} vectors");
                0
            }
            Err(e) => {
                println!("selftest failed: {e}");
                2
            }
        },
        Some("list") => {
            for p in &all {
                for s in p.scenarios {
                    println!("{} {} sweep={:?} weight={} heavy={} plain_only={}", p.id, s.name, s.sweep, s.weight, s.heavy, s.plain_only);
                }
            }
            0
        }
        Some("cold-probe") => {
            let n = |k: usize| a.get(k).and_then(|s| s.parse().ok()).unwrap_or(0);
            props::system::cold_probe(n(1), n(2), n(3));
            0
        }
        Some("seed-probe") => {
            props::rsa::seed_probe();
            0
        }
        // number of distinct 64-bit case hashes over several shards
        Some("distinct") => {
            let mut v: Vec<u64> = vec![];
            for f in &a[1..] {
                if let Ok(b) = std::fs::read(f) {
                    v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
            0
        }
        Some("run") => {
            let p = find(&a[1]);
            let o = Opts {
                seed: num(&a, "--seed", 1),
                shard: num(&a, "--shard", 0),
                shards: num(&a, "--shards", 1),
                cases: num(&a, "--cases", u64::MAX),
                secs: arg(&a, "--secs").map(|s| s.parse().expect("secs")).unwrap_or(10.0),
                out: arg(&a, "--out").unwrap_or("/dev/null").to_string(),
                thorough: a.iter().any(|x| x == "--thorough"),
                plain: a.iter().any(|x| x == "--plain"),
                only: arg(&a, "--only").map(|s| s.to_string()),
                sweep_frac: num(&a, "--frac", 1),
            };
            start_watchdog();
            let r = engine::run(p, &o);
            let j = r.json(p);
            if cfg!(miri) {
                println!("VP-REPORT {j}");
            } else if o.out == "/dev/null" {
                println!("{j}");
            } else {
                let mut b = Vec::with_capacity(r.cx.distinct.len() * 8);
                for h in &r.cx.distinct {
                    b.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(format!("{}.hash", o.out), b).expect("write");
                let mut f = std::fs::File::create(&o.out).expect("create");
                f.write_all(j.as_bytes()).expect("write");
            }
            0
        }
        // replay PROP SCENARIO IDX TAPEHEX [--seed N --dict FILE --thorough]
        Some("replay") => {
            let p = find(&a[1]);
            start_watchdog();
            let dict: Vec<u64> = arg(&a, "--dict")
                .and_then(|f| std::fs::read(f).ok())
                .map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
                .unwrap_or_default();
            let tape = if a[4] == "-" { vec![] } else { unhex(&a[4]) };
            match replay(p, &a[2], a[3].parse().expect("idx"), tape, num(&a, "--seed", 0), &dict, a.iter().any(|x| x == "--thorough")) {
                Err(e) => {
                    println!("VP-HARNESS-ERROR {e}");
                    2
                }
                Ok(v) if v.is_empty() => {
                    println!("replay: no violation");
                    0
                }
                Ok(v) => {
                    for x in v {
                        println!("replay: {}: {}", x.sig, x.detail);
                    }
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: vp selftest | list | run PROP [..] | replay PROP SCENARIO IDX TAPE");
            2
        }
    }
}
