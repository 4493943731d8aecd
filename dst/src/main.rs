mod alloc;
mod check;
mod corrupt;
mod ep;
mod gen;
mod giant;
mod libpk;
mod model;
mod pair;
mod rng;
mod run;
mod solo;
mod steps;
mod wire;

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

#[global_allocator]
static METER: check::Meter = check::Meter;

fn main() {
    ep::install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("explore") => {
            // explore PROP SEED N: every violation class, for triage
            let prop: u32 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            let next = AtomicU64::new(0);
            let all: Mutex<BTreeMap<String, (u64, u64, u32)>> = Mutex::new(BTreeMap::new());
            let tot: Mutex<(solo::Stats, std::collections::BTreeSet<u64>, BTreeMap<&'static str, u64>)> = Mutex::new(Default::default());
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| {
                        let mut st = solo::Stats::default();
                        let mut states = std::collections::BTreeSet::new();
                        let mut corners: BTreeMap<&'static str, u64> = BTreeMap::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let r = run::generate(prop, seed, i, check::long(i));
                            st.add(&r.stats);
                            states.extend(r.states);
                            if let Some(c) = r.corner {
                                *corners.entry(c).or_insert(0) += 1;
                            }
                            for (m, t) in &r.viol {
                                let key: String = t.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).take(90).collect();
                                let mut g = all.lock().unwrap();
                                let e = g.entry(key).or_insert((0, i, *m));
                                e.0 += 1;
                                e.1 = e.1.min(i);
                            }
                        }
                        let mut g = tot.lock().unwrap();
                        g.0.add(&st);
                        g.1.extend(states);
                        for (k, n) in corners {
                            *g.2.entry(k).or_insert(0) += n;
                        }
                    });
                }
            });
            let mut v: Vec<_> = all.into_inner().unwrap().into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (k, (n, i, m)) in v {
                let tags: Vec<String> = (1..=20).filter(|t| m & (1 << t) != 0).map(|t| format!("C{t:02}")).collect();
                println!("{n:6} run {i:6} [{}] {k}", if m == u32::MAX { "ALL".into() } else { tags.join(",") });
            }
            let g = tot.into_inner().unwrap();
            println!("calls {} steps {} sim_ms {} states {}", g.0.calls, g.0.steps, g.0.sim_ms, g.1.len());
            for (k, n) in &g.0.count {
                println!("   {k}: {n}");
            }
            for (k, n) in &g.2 {
                println!("   corner {k}: {n}");
            }
        }
        Some("probe") => {
            // probe SEED N PROP...: the first violation any of the properties' runs meet, for mutation campaigns
            let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            for prop in a[4..].iter().map(|x| x.parse::<u32>().unwrap()) {
                let next = AtomicU64::new(0);
                let hit: Mutex<Option<(u64, u32, String)>> = Mutex::new(None);
                std::thread::scope(|s| {
                    for _ in 0..4 {
                        s.spawn(|| loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || hit.lock().unwrap().is_some() {
                                break;
                            }
                            let r = run::generate(prop, seed, i, check::long(i));
                            if let Some((m, t)) = r.viol.first() {
                                *hit.lock().unwrap() = Some((i, *m, t.clone()));
                            }
                        });
                    }
                });
                if let Some((i, m, t)) = hit.into_inner().unwrap() {
                    println!("HIT C{prop:02} run {i} mask {m:x} {}", t.chars().take(110).collect::<String>().replace('\n', " "));
                    std::process::exit(1);
                }
            }
            println!("QUIET");
        }
        Some("show") => {
            let prop: u32 = a[2].parse().unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let i: u64 = a[4].parse().unwrap();
            let r = run::generate(prop, seed, i, check::long(i));
            let mut s = r.sched;
            if a.get(5).map(|x| x.as_str()) != Some("full") {
                let t: u32 = (1..=20).find(|t| r.viol.iter().any(|v| v.0 & (1 << t) != 0)).unwrap_or(0);
                let t = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(t);
                s = run::minimise(s, t, Duration::from_secs(10));
            }
            let r = s.exec(true);
            println!("{}", s.text());
            for l in &r.lines {
                println!("{l}");
            }
            for (m, t) in &r.viol {
                println!("VIOL {:x} {t}", m);
            }
            println!("corner {:?}", r.corner);
        }
        Some("check") => {
            // check --property C01 --tier quick|thorough --seed N --dir /verif [--runs N] [--cap SECONDS]
            let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
            let prop = get("--property").and_then(|x| x.trim_start_matches('C').parse().ok()).expect("--property Cnn");
            let thorough = get("--tier").as_deref() == Some("thorough");
            let c = check::Args {
                part: a.iter().any(|x| x == "--part"),
                prop,
                thorough,
                seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
                dir: get("--dir").unwrap_or_else(|| "/verif".into()),
                runs: get("--runs").and_then(|x| x.parse().ok()),
                cap: get("--cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 660 } else { 240 }),
            };
            std::process::exit(check::check(&c));
        }
        Some("replay") => std::process::exit(check::replay(&a[2])),
        Some("hash") => {
            // hash PROP SEED N WORKERS: one number over every execution, for the determinism test
            let (prop, seed, n): (u32, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            let workers: u64 = a[5].parse().unwrap();
            let x = AtomicU64::new(0);
            std::thread::scope(|s| {
                for w in 0..workers {
                    let x = &x;
                    s.spawn(move || {
                        for i in (w..n).step_by(workers as usize) {
                            let r = run::generate(prop, seed, i, check::long(i));
                            x.fetch_add(r.hash.rotate_left((i % 61) as u32) ^ i.wrapping_mul(0x9e3779b97f4a7c15), Ordering::Relaxed);
                        }
                    });
                }
            });
            println!("{:016x}", x.load(Ordering::Relaxed));
        }
        _ => {
            eprintln!("usage: dst check|replay|explore|show|hash ...");
            std::process::exit(2);
        }
    }
}
