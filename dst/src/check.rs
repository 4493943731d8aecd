//! The command line of a registered check: explore, minimise, confirm, report, write evidence.

use crate::model::c;
use crate::run::{self, Sched};
use crate::solo::Stats;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- runaway protection

/// bytes one run may have allocated at a time before it counts as running away
pub const RUN_BYTES: isize = 1 << 30;
thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static METERED: Cell<bool> = const { Cell::new(false) };
    static LIMIT: Cell<isize> = const { Cell::new(RUN_BYTES) };
}
pub struct Meter;
// SAFETY: forwards to System
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HELD.try_with(|h| {
            h.set(h.get() + l.size() as isize);
            if h.get() > LIMIT.try_with(|l| l.get()).unwrap_or(RUN_BYTES) && METERED.try_with(|m| m.get()).unwrap_or(false) {
                // parked: the watchdog reports this run as one that does not end
                loop {
                    std::thread::sleep(Duration::from_secs(60));
                }
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = HELD.try_with(|h| h.set(h.get() - l.size() as isize));
        System.dealloc(p, l)
    }
}
/// another bound for the current run (the giant ones)
pub fn limit(n: isize) {
    LIMIT.with(|l| l.set(n));
}
fn metered<T>(f: impl FnOnce() -> T) -> T {
    HELD.with(|h| h.set(0));
    METERED.with(|m| m.set(true));
    let r = f();
    METERED.with(|m| m.set(false));
    r
}

// ---------------------------------------------------------------- plan

/// the number of simulated runs of a tier
pub fn plan(prop: u32, thorough: bool) -> u64 {
    let quick: u64 = match prop {
        1 => 400_000,
        4 => 1_200_000,
        8 => 60_000,
        20 => 500_000,
        _ => 400_000,
    };
    if thorough {
        quick * 14
    } else {
        quick
    }
}
/// every sixteenth run is a long one
pub fn long(idx: u64) -> bool {
    idx % 16 == 15
}

fn id(prop: u32) -> String {
    format!("C{prop:02}")
}

#[derive(Default)]
struct Tot {
    runs: u64,
    stats: Stats,
    states: HashSet<u64>,
    hashes: HashSet<u64>,
    nontrivial: u64,
    worlds: BTreeMap<&'static str, u64>,
    corners: BTreeMap<&'static str, u64>,
    others: BTreeMap<String, u64>,
    replayed: u64,
    diverged: u64,
}

/// how the library in this binary was built
pub const BUILD: &str = if cfg!(feature = "sso10") {
    "sso10"
} else if cfg!(feature = "sso20") {
    "sso20"
} else {
    "default"
};
const OTHERS: [&str; 2] = ["sso10", "sso20"];
/// the simulator built with another feature set of the library, if it is there
fn sibling(build: &str) -> Option<std::path::PathBuf> {
    let me = std::env::current_exe().ok()?;
    let name = if build == "default" { "dst".to_string() } else { format!("dst-{build}") };
    let p = me.parent()?.join(name);
    p.exists().then_some(p)
}

pub struct Args {
    /// the share of another build: no evidence file, a line of numbers instead
    pub part: bool,
    pub prop: u32,
    pub thorough: bool,
    pub seed: u64,
    pub dir: String,
    pub runs: Option<u64>,
    pub cap: u64,
}

fn faulty(s: &Stats) -> bool {
    s.count.keys().any(|k| k.starts_with("fault") || k.starts_with("alloc"))
}

/// returns the process's exit code
pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let n = a.runs.unwrap_or(plan(a.prop, a.thorough));
    let mut builds: Vec<(String, u64)> = vec![];
    let cap = Duration::from_secs(a.cap);
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let live = AtomicU64::new(0);
    let cur: Vec<(AtomicU64, AtomicU64)> = (0..8).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let tot: Mutex<Tot> = Mutex::new(Tot::default());
    let found: Mutex<Option<(u64, run::Res)>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for w in 0..8usize {
            let (cur, next, best, tot, found, stop, live) = (&cur, &next, &best, &tot, &found, &stop, &live);
            live.fetch_add(1, Relaxed);
            sc.spawn(move || {
                let mut t = Tot::default();
                'out: loop {
                    let i0 = next.fetch_add(32, Relaxed);
                    if i0 >= n || i0 > best.load(Relaxed) || stop.load(Relaxed) {
                        break;
                    }
                    if t0.elapsed() > cap {
                        break;
                    }
                    for i in i0..(i0 + 32).min(n) {
                        if i > best.load(Relaxed) {
                            break 'out;
                        }
                        cur[w].1.store(t0.elapsed().as_millis() as u64, Relaxed);
                        cur[w].0.store(i, Relaxed);
                        let Ok(r) = std::panic::catch_unwind(|| metered(|| run::generate(a.prop, a.seed, i, long(i)))) else {
                            // the simulator's own assumption failed: no verdict for this run
                            *t.others.entry("the simulator itself panicked".into()).or_insert(0) += 1;
                            t.runs += 1;
                            cur[w].0.store(u64::MAX, Relaxed);
                            continue;
                        };
                        t.runs += 1;
                        t.stats.add(&r.stats);
                        *t.worlds.entry(r.sched.world()).or_insert(0) += 1;
                        if let Some(k) = r.corner {
                            *t.corners.entry(k).or_insert(0) += 1;
                        }
                        if faulty(&r.stats) && r.stats.calls >= 4 && t.hashes.insert(r.hash) {
                            t.nontrivial += 1;
                        }
                        if i % 2003 == 0 {
                            // the same schedule again: it must be the same execution
                            let x = r.sched.exec(false);
                            t.replayed += 1;
                            if x.hash != r.hash || x.viol.len() != r.viol.len() {
                                t.diverged += 1;
                            }
                        }
                        t.states.extend(r.states.iter());
                        cur[w].0.store(u64::MAX, Relaxed);
                        if run::hits(&r.viol, a.prop) {
                            let mut f = found.lock().unwrap();
                            if i < best.load(Relaxed) {
                                best.store(i, Relaxed);
                                *f = Some((i, r));
                            }
                        } else if let Some(v) = r.viol.first() {
                            *t.others.entry(v.1.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).take(100).collect()).or_insert(0) += 1;
                        }
                    }
                }
                let mut g = tot.lock().unwrap();
                g.runs += t.runs;
                g.stats.add(&t.stats);
                g.nontrivial += t.nontrivial;
                g.replayed += t.replayed;
                g.diverged += t.diverged;
                for (k, v) in t.worlds {
                    *g.worlds.entry(k).or_insert(0) += v;
                }
                for (k, v) in t.corners {
                    *g.corners.entry(k).or_insert(0) += v;
                }
                for (k, v) in t.others {
                    *g.others.entry(k).or_insert(0) += v;
                }
                g.states.extend(t.states);
                g.hashes.extend(t.hashes);
                live.fetch_sub(1, Relaxed);
            });
        }
        // watchdog: a run that does not end
        let (cur, stop, live) = (&cur, &stop, &live);
        sc.spawn(move || {
            while live.load(Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for (i, at) in cur.iter() {
                    let k = i.load(Relaxed);
                    if k != u64::MAX && now.saturating_sub(at.load(Relaxed)) > 25_000 && i.load(Relaxed) == k && !stop.swap(true, Relaxed) {
                        hung(a, k, t0);
                    }
                }
            }
        });
    });
    let mut g = tot.into_inner().unwrap();
    g.nontrivial = g.hashes.len() as u64;
    let f = found.into_inner().unwrap();
    for (k, v) in &g.others {
        eprintln!("note: {v} runs stopped at a violation of another property: {k}");
    }
    if g.diverged > 0 {
        eprintln!("note: {} of {} replayed runs differed from their recording", g.diverged, g.replayed);
    }
    let mut code = match &f {
        None => 0,
        Some((i, r)) => {
            let path = report(a, *i, r);
            println!("VIOLATION property={} replay={}", id(a.prop), path);
            1
        }
    };
    builds.push((BUILD.into(), g.runs));
    if a.part {
        println!("PART {} {} {}", g.runs, g.stats.calls, g.stats.sim_ms);
        return code;
    }
    if code == 0 && a.prop != 20 {
        for (k, b) in OTHERS.iter().enumerate() {
            let Some(exe) = sibling(b) else {
                eprintln!("note: no {b} build");
                continue;
            };
            let o = Command::new(exe)
                .args(["check", "--part", "--property", &id(a.prop), "--tier", if a.thorough { "thorough" } else { "quick" }])
                .args(["--seed", &(a.seed + 1_000_003 * (k as u64 + 1)).to_string(), "--dir", &a.dir])
                .args(["--runs", &(n / 12).to_string(), "--cap", &(a.cap / 8).to_string()])
                .stderr(Stdio::inherit())
                .output();
            let Ok(o) = o else { continue };
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if let Some(x) = l.strip_prefix("PART ") {
                    let f: Vec<u64> = x.split_whitespace().filter_map(|y| y.parse().ok()).collect();
                    builds.push((b.to_string(), f.first().copied().unwrap_or(0)));
                } else if l.starts_with("VIOLATION ") {
                    println!("{l}");
                    code = 1;
                }
            }
            if code != 0 {
                break;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(a, &g, n, wall, code as u64, &builds);
    println!(
        "{} {} seed {}: {} runs, {} API calls, {} distinct non-trivial runs, {} states, {:.1} s, {}",
        id(a.prop),
        if a.thorough { "thorough" } else { "quick" },
        a.seed,
        g.runs,
        g.stats.calls,
        g.nontrivial,
        g.states.len(),
        wall,
        if code == 0 { "no violation" } else { "VIOLATED" }
    );
    code
}

fn hung(a: &Args, k: u64, t0: Instant) {
    // confirm alone, with nothing else using the machine but this process's other workers
    std::fs::create_dir_all(format!("{}/replays", a.dir)).ok();
    let path = format!("{}/replays/{}-{}-{}.txt", a.dir, id(a.prop), a.seed, k);
    let t = format!("# property {}\n# build {BUILD}\n# a call does not return (or allocates without bound)\nworld seeded {} {} {}\n", id(a.prop), a.prop, a.seed, k);
    std::fs::write(&path, t).ok();
    let Ok(mut ch) = Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else { return };
    let c0 = Instant::now();
    while c0.elapsed() < Duration::from_secs(30) {
        if let Ok(Some(_)) = ch.try_wait() {
            eprintln!("note: run {k} was slow but ends");
            return;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    ch.kill().ok();
    ch.wait().ok();
    println!("VIOLATION property={} replay={}", id(a.prop), path);
    if !a.part {
        let g = Tot { runs: k, ..Default::default() };
        evidence(a, &g, k, t0.elapsed().as_secs_f64(), 1, &[]);
    }
    std::process::exit(1);
}

fn write_replay(a: &Args, i: u64, s: &Sched, what: &str, path: &str) {
    let r = s.exec(true);
    let mut t = format!("# property {}\n# build {BUILD}\n# seed {} run {}\n# {}\n", id(a.prop), a.seed, i, what.replace('\n', " "));
    t.push_str(&s.text());
    t.push_str("#\n# what happened:\n");
    for l in &r.lines {
        for x in l.lines() {
            t.push_str("# ");
            t.push_str(x);
            t.push('\n');
        }
    }
    std::fs::write(path, t).ok();
}

fn message(r: &run::Res, prop: u32) -> Option<String> {
    r.viol.iter().find(|v| v.0 & c(prop) != 0).map(|v| v.1.clone())
}

/// minimise, write the replay file, confirm it in a fresh process
fn report(a: &Args, i: u64, r: &run::Res) -> String {
    std::fs::create_dir_all(format!("{}/replays", a.dir)).ok();
    let path = format!("{}/replays/{}-{}-{}.txt", a.dir, id(a.prop), a.seed, i);
    let first = message(r, a.prop).unwrap_or_default();
    eprintln!("run {i}: {first}");
    let same = |s: &Sched| s.exec(false);
    let full = same(&r.sched);
    let mut s = r.sched.clone();
    if run::hits(&full.viol, a.prop) {
        s = run::minimise(s, a.prop, Duration::from_secs(25));
    }
    let m = message(&same(&s), a.prop).unwrap_or(first);
    write_replay(a, i, &s, &m, &path);
    eprintln!("minimised from {} to {} steps: {m}", r.sched.len(), s.len());
    let confirm = |p: &str| Command::new(std::env::current_exe().unwrap()).args(["replay", p]).stdout(Stdio::null()).stderr(Stdio::null()).status().ok().and_then(|x| x.code());
    if confirm(&path) != Some(1) {
        // some state of the code under test is not a function of the schedule: keep the whole recording, and the seed
        write_replay(a, i, &r.sched, &m, &path);
        if confirm(&path) != Some(1) {
            let t = format!("# property {}\n# build {BUILD}\n# {m}\n# (the recorded schedule alone does not reproduce it)\nworld seeded {} {} {}\n", id(a.prop), a.prop, a.seed, i);
            std::fs::write(&path, t).ok();
        }
        eprintln!("note: the minimised schedule did not reproduce in a fresh process");
    }
    path
}

/// exit code of `dst replay FILE`
pub fn replay(path: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let prop = t.lines().find_map(|l| l.strip_prefix("# property C")).and_then(|x| x.trim().parse::<u32>().ok()).unwrap_or(0);
    if let Some(b) = t.lines().find_map(|l| l.strip_prefix("# build ")).map(|x| x.trim()).filter(|b| *b != BUILD) {
        let Some(exe) = sibling(b) else {
            eprintln!("no {b} build of the simulator");
            return 2;
        };
        return Command::new(exe).args(["replay", path]).status().ok().and_then(|x| x.code()).unwrap_or(2);
    }
    let body = t.lines().find(|l| !l.starts_with('#') && !l.trim().is_empty()).unwrap_or("");
    let f: Vec<u64> = body.strip_prefix("world seeded ").map(|x| x.split_whitespace().filter_map(|y| y.parse().ok()).collect()).unwrap_or_default();
    let r = if f.len() == 3 {
        run::generate(f[0] as u32, f[1], f[2], long(f[2]))
    } else {
        let Some(s) = Sched::parse(&t) else {
            eprintln!("{path} is not a replay file");
            return 2;
        };
        s.exec(true)
    };
    for l in &r.lines {
        println!("{l}");
    }
    for v in &r.viol {
        let p: Vec<String> = (1..=20).filter(|k| v.0 & c(*k) != 0).map(id).collect();
        println!("[{}] {}", p.join(","), v.1);
    }
    if (prop == 0 && !r.viol.is_empty()) || run::hits(&r.viol, prop) {
        println!("VIOLATION property={} replay={path}", id(prop));
        1
    } else {
        println!("no violation");
        0
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<K: AsRef<str>>(m: impl Iterator<Item = (K, u64)>) -> String {
    format!("{{{}}}", m.map(|(k, v)| format!("{}: {v}", js(k.as_ref()))).collect::<Vec<_>>().join(", "))
}

fn evidence(a: &Args, g: &Tot, planned: u64, wall: f64, violations: u64, builds: &[(String, u64)]) {
    let mut samples = vec![];
    let mut worlds = BTreeSet::new();
    for i in 0..40 {
        if samples.len() >= 3 || g.runs < 40 {
            break;
        }
        let r = run::generate(a.prop, a.seed, i, long(i));
        if !faulty(&r.stats) && worlds.contains(r.sched.world()) || r.sched.len() > 60 {
            continue;
        }
        worlds.insert(r.sched.world());
        let t: String = r.sched.text().lines().take(40).map(|x| x.chars().take(160).collect::<String>()).collect::<Vec<_>>().join(" | ");
        samples.push(js(&format!("run {i} (hash {:016x}): {t}", r.hash)));
    }
    let real = match a.prop {
        4 => "\"all packet parsers, builders, property/string/binary/variable-byte-integer decoders (real); in the solo runs also the whole connection object\"",
        20 => "\"ValueAllocator (real); in the solo runs of the other properties it runs inside the connection object\"",
        1 => "\"both connection objects, client and server, with their packet codec, store, id allocator and alias tables (real)\"",
        _ => "\"the connection object under test with its packet codec, store, id allocator and alias tables (real); twins are further real objects\"",
    };
    let stub = match a.prop {
        4 => "\"the sender, transport and disk that damage frames; the reference codec that judges them\"",
        20 => "\"the holders of values\"",
        1 => "\"transport, clock, process crashes, both applications (and, in the solo share, the peer)\"",
        _ => "\"peer (reference codec), transport, clock, process crashes, application\"",
    };
    let hours = (wall / 3600.0).max(1e-9);
    let faults = jmap(g.stats.count.iter().filter(|(k, _)| k.starts_with("fault")).map(|(k, v)| (*k, *v)));
    let events = jmap(g.stats.count.iter().filter(|(k, _)| !k.starts_with("fault")).map(|(k, v)| (*k, *v)));
    let t = format!(
        r#"{{
 "property": {prop}, "tier": {tier}, "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {nt},
  "rule": "One evaluation is one simulated run, a pure function of (seed, property, run index): configuration, schedule, faults and workload are drawn from that seed. A run is non-trivial if at least four library calls were made and at least one fault was injected (for the allocator: at least one interleaving of holders beyond allocation); runs are distinct by a hash over every call made and every event list returned.",
  "samples": [{samples}],
  "planned_runs": {planned},
  "runs_by_library_build": {builds},
  "runs_per_hour": {rph:.0},
  "seeds_per_hour": {rph:.0},
  "library_calls": {calls},
  "schedule_steps": {steps},
  "simulated_time_s": {sim},
  "faults_injected": {faults},
  "events_and_situations": {events},
  "worlds": {worlds},
  "runs_ended_without_verdict_at_corner": {corners},
  "distinct_states": {states},
  "state_measure": "hash of the abstract state after every step: connection status, version, outstanding exchanges and store shape, alias and quota levels, armed timers, pending input and (pair) both sides' transport and debts",
  "replayed_from_schedule": {replayed},
  "replays_that_differed": {diverged},
  "real_components": {real},
  "stub_components": {stub}
 }},
 "assumptions": ["the reference codec (dst/src/wire.rs) and the shadow model (dst/src/model.rs) state MQTT and the property correctly", "runs that reach a documented corner (see DESIGN.md) are ended without verdict", "released packet identifiers within one event list are compared as a set"],
 "wall_s": {wall:.2},
 "violations": {violations}
}}
"#,
        prop = js(&id(a.prop)),
        tier = js(if a.thorough { "thorough" } else { "quick" }),
        seed = a.seed,
        runs = g.runs,
        nt = g.nontrivial,
        samples = samples.join(", "),
        rph = g.runs as f64 / hours,
        calls = g.stats.calls,
        steps = g.stats.steps,
        sim = g.stats.sim_ms / 1000,
        worlds = jmap(g.worlds.iter().map(|(k, v)| (*k, *v))),
        builds = jmap(builds.iter().map(|(k, v)| (k.as_str(), *v))),
        corners = jmap(g.corners.iter().map(|(k, v)| (*k, *v))),
        states = g.states.len(),
        replayed = g.replayed,
        diverged = g.diverged,
    );
    let d = format!("{}/evidence", a.dir);
    std::fs::create_dir_all(&d).ok();
    if let Err(e) = std::fs::write(format!("{d}/{}.json", id(a.prop)), t) {
        eprintln!("cannot write the evidence file: {e}");
    }
}
