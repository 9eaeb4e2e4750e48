#![cfg_attr(feature = "f16", feature(f16))]
//! Replay and bounded stand-in driver.
//!   run    --prop P --seed S --cases N --secs T --cur FILE
//!   replay --prop P "<case>"
//!   dump   --seed S --cases N --out FILE        (C16: results of this build)
//!   cmp    A B                                  (C16: two dumps)
mod galloc;
mod more;
mod oracle;
mod props;
mod run;
mod util;
use std::io::Write;
use util::*;

#[global_allocator]
static A: galloc::G = galloc::G;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    galloc::init();
    let mode = a.get(1).cloned().unwrap_or_default();
    let prop = arg(&a, "--prop").unwrap_or_default();
    match mode.as_str() {
        "run" => {
            let seed = num(&a, "--seed", 1);
            let (n, secs) = (num(&a, "--cases", 1000), num(&a, "--secs", 60));
            let cur = arg(&a, "--cur");
            let t0 = std::time::Instant::now();
            let mut r = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ prop.bytes().fold(7u64, |h, b| h.wrapping_mul(131) ^ b as u64));
            let (mut done, mut bad, mut known) = (0u64, 0, 0u64);
            let mut seen = std::collections::BTreeMap::<String, u64>::new();
            // the formats a failed obligation is about, as fmt or fmt:channels
            let only = arg(&a, "--only");
            let fits = |c: &Case| match &only {
                Some(o) => o.split(',').any(|o| *o == c.fmt || *o == format!("{}:{}", c.fmt, c.n)),
                None => true,
            };
            let mut distinct = std::collections::HashSet::<u64>::new();
            while done < n && t0.elapsed().as_secs() < secs {
                let mut c = props::gen(&prop, &mut r);
                for _ in 0..60 {
                    if fits(&c) {
                        break;
                    }
                    c = props::gen(&prop, &mut r);
                }
                distinct.insert(c.show().bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
                if let Some(f) = &cur {
                    let _ = std::fs::write(f, c.show());
                }
                *seen.entry(format!("{}x{}", c.fmt, c.n)).or_default() += 1;
                done += 1;
                let res = match run::guarded(|| props::check(&prop, &c)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panicked: {p}")),
                };
                galloc::ON.store(false, std::sync::atomic::Ordering::SeqCst);
                if let Err(e) = res {
                    if e.starts_with(props::KNOWN) {
                        known += 1;
                        if known <= 3 {
                            println!("KNOWN {} :: {e}", c.show());
                        }
                    } else {
                        bad += 1;
                        println!("FAIL {} :: {e}", c.show());
                        if bad >= num(&a, "--max", 5) {
                            break;
                        }
                    }
                }
            }
            let s: Vec<String> = seen.iter().map(|(k, v)| format!("{k}:{v}")).collect();
            println!("DONE cases={done} bad={bad} known={known} distinct={} {}", distinct.len(), s.join(" "));
            if let Some(f) = &cur {
                let _ = std::fs::remove_file(f);
            }
        }
        "replay" => {
            let c = Case::parse(&a[a.len() - 1]);
            let res = match run::guarded(|| props::check(&prop, &c)) {
                Ok(r) => r,
                Err(p) => Err(format!("panicked: {p}")),
            };
            match res {
                Ok(()) => println!("OK {}", c.show()),
                Err(e) => {
                    println!("FAIL {} :: {e}", c.show());
                    std::process::exit(1);
                }
            }
        }
        "dump" => {
            let mut r = Rng::new(num(&a, "--seed", 1) ^ 0xC16);
            let mut f = std::io::BufWriter::new(std::fs::File::create(arg(&a, "--out").unwrap()).unwrap());
            let t0 = std::time::Instant::now();
            for _ in 0..num(&a, "--cases", 1000) {
                let c = match arg(&a, "--case") {
                    Some(s) => Case::parse(&s),
                    None => more::gen16(&mut r),
                };
                if let Some(f) = arg(&a, "--cur") {
                    let _ = std::fs::write(f, c.show());
                }
                let v = match run::guarded(|| more::dump16(&c)) {
                    Ok(Ok(v)) => v,
                    _ => vec![f64::NAN],
                };
                writeln!(f, "{}", c.show()).unwrap();
                let s: Vec<String> = v.iter().map(|x| if x.is_nan() { "nan".to_string() } else { format!("{x}") }).collect();
                writeln!(f, "{}", s.join(" ")).unwrap();
                if t0.elapsed().as_secs() > num(&a, "--secs", 600) {
                    break;
                }
            }
        }
        "cmp" => {
            let x = std::fs::read_to_string(&a[2]).unwrap();
            let y = std::fs::read_to_string(&a[3]).unwrap();
            let (mut p, mut q) = (x.lines(), y.lines());
            let (mut n, mut bad) = (0, 0);
            while let (Some(c), Some(v), Some(c2), Some(w)) = (p.next(), p.next(), q.next(), q.next()) {
                assert_eq!(c, c2);
                n += 1;
                let c = Case::parse(c);
                let v: Vec<f64> = v.split(' ').map(|s| s.parse().unwrap()).collect();
                let w: Vec<f64> = w.split(' ').map(|s| s.parse().unwrap()).collect();
                let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                let t = more::tol16(&c, m);
                let i = (0..v.len().max(w.len())).find(|&i| match (v.get(i), w.get(i)) {
                    (Some(a), Some(b)) => !((a - b).abs() <= t + 1e-12),
                    _ => true,
                });
                if let Some(i) = i {
                    bad += 1;
                    if bad <= 5 {
                        println!("FAIL {} :: sample {i} is {:?} in one build and {:?} in the other (admitted difference {t:.3})", c.show(), v.get(i), w.get(i));
                    }
                }
            }
            println!("DONE cases={n} bad={bad} known=0");
        }
        "gen" => {
            let mut r = Rng::new(num(&a, "--seed", 1));
            for _ in 0..num(&a, "--cases", 10) {
                println!("{}", props::gen(&prop, &mut r).show());
            }
        }
        _ => {
            eprintln!("usage: run|replay|dump|cmp");
            std::process::exit(2);
        }
    }
}
