//! One simulated run of any world: generation from a seed, replay from a file, minimisation.

use crate::alloc::{self, ACfg, AOp};
use crate::corrupt::{self, Dmg};
use crate::gen::Gen;
use crate::giant::{self, GCfg};
use crate::libpk::VECTORED;
use crate::model::*;
use crate::pair::{self, PCfg, PStep, Pair};
use crate::rng::Rng;
use crate::solo::*;
use crate::steps::*;
use std::collections::BTreeSet;

/// the recorded schedule of a run
#[derive(Clone)]
pub enum Sched {
    Solo(Cfg, Vec<Step>),
    Pair(PCfg, Vec<PStep>),
    Corrupt(Vec<Dmg>),
    Alloc(ACfg, Vec<AOp>),
    Giant(Vec<GCfg>),
}

pub struct Res {
    pub sched: Sched,
    pub viol: Vec<Viol>,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    pub hash: u64,
    pub lines: Vec<String>,
    pub corner: Option<&'static str>,
}

fn of_pair(sched: Sched, p: Pair) -> Res {
    Res { sched, viol: p.viol, stats: p.stats, states: p.states, hash: p.hash, lines: p.trace.unwrap_or_default(), corner: None }
}

/// Systematic share of C04: kinds (with the interesting fixed-header flags) x versions x widths, for every body of up to
/// two bytes, then again with a third byte of 20 values; runs only the thorough tier reaches go through all 256 of them.
fn sweep_of(prop: u32, idx: u64) -> Option<(u8, bool, usize, Option<u8>)> {
    const THIRD: [u8; 20] = [0, 1, 2, 3, 4, 5, 8, 9, 0x10, 0x11, 0x1f, 0x20, 0x26, 0x7f, 0x80, 0x81, 0x83, 0x90, 0xc0, 0xff];
    const DEEP: u64 = 1_200_000;
    if prop != 4 || idx % 4 != 1 {
        return None;
    }
    let deep = idx >= DEEP;
    let k = if deep { (idx - DEEP) / 4 } else { idx / 4 };
    let i = k % 30;
    let b0 = match i {
        0..=14 => (i as u8 + 1) << 4,
        15 => 0x62,
        16 => 0x82,
        17 => 0xa2,
        _ => 0x30 | (i as u8 - 17).min(15),
    };
    let k = k / 30;
    let t = (k / 4) as usize;
    let third = match t {
        _ if deep && t < 256 => Some(t as u8),
        0 if !deep => None,
        1..=20 if !deep => Some(THIRD[t - 1]),
        _ => return None,
    };
    Some((b0, k % 2 == 1, if k / 2 % 2 == 0 { 2 } else { 4 }, third))
}

/// one run in so many is a giant one
fn giant_every(prop: u32) -> Option<u64> {
    match prop {
        4 => Some(50_000),
        5 => Some(12_500),
        6 | 9 | 13 | 14 => Some(25_000),
        _ => None,
    }
}

pub fn generate(prop: u32, seed: u64, idx: u64, long: bool) -> Res {
    let mut r = Rng::derive(seed, prop as u64, idx);
    VECTORED.with(|v| v.set(false));
    if let Some(k) = giant_every(prop) {
        if idx % k == k / 2 {
            return Sched::Giant(vec![giant::generate(prop, &mut r)]).exec(false);
        }
    }
    if let Some((b0, v5, w, third)) = sweep_of(prop, idx) {
        // systematic part: all short bodies of every kind
        let (mut stats, mut hash) = (Stats::default(), 0xcbf29ce484222325u64);
        let bad = corrupt::sweep(v5, w, b0, third, &mut stats, &mut hash);
        let sched = Sched::Corrupt(bad.into_iter().collect());
        let viol = sched.exec(false).viol;
        return Res { sched, viol, stats, states: BTreeSet::new(), hash, lines: vec![], corner: None };
    }
    match prop {
        1 if r.pct(85) => {
            let (cfg, steps, p) = pair::generate(&mut r, long);
            return of_pair(Sched::Pair(cfg, steps), p);
        }
        4 if r.pct(90) => {
            let mut stats = Stats::default();
            let f = corrupt::gen_frames(&mut r, long, &mut stats);
            let mut x = Sched::Corrupt(f).exec(false);
            x.stats.add(&stats);
            return x;
        }
        20 => {
            let (cfg, ops) = alloc::generate(&mut r, long);
            return Sched::Alloc(cfg, ops).exec(false);
        }
        _ => {}
    }
    let (mut g, cfg) = Gen::new(prop, long, r);
    let mut w = World::new(cfg, false);
    let viol = g.run(&mut w);
    Res {
        sched: Sched::Solo(cfg, g.steps),
        viol,
        stats: w.stats,
        states: w.states,
        hash: w.hash,
        lines: vec![],
        corner: w.m.corner,
    }
}

impl Sched {
    pub fn exec(&self, trace: bool) -> Res {
        VECTORED.with(|v| v.set(false));
        let mut lines = vec![];
        let (mut stats, mut states, mut hash) = (Stats::default(), BTreeSet::new(), 0xcbf29ce484222325u64);
        match self {
            Sched::Solo(cfg, steps) => {
                let mut w = World::new(*cfg, trace);
                let mut viol = vec![];
                for s in steps {
                    viol = w.step(s);
                    if !viol.is_empty() || w.stop() {
                        break;
                    }
                }
                Res {
                    sched: self.clone(),
                    viol,
                    stats: w.stats,
                    states: w.states,
                    hash: w.hash,
                    lines: w.trace.unwrap_or_default(),
                    corner: w.m.corner,
                }
            }
            Sched::Pair(cfg, steps) => of_pair(self.clone(), pair::exec(cfg, steps, trace)),
            Sched::Corrupt(f) => {
                let viol = corrupt::exec(f, &mut stats, &mut states, &mut hash, if trace { Some(&mut lines) } else { None });
                Res { sched: self.clone(), viol, stats, states, hash, lines, corner: None }
            }
            Sched::Giant(l) => {
                let mut viol = vec![];
                for x in l {
                    viol = giant::exec(x, &mut stats, &mut hash, if trace { Some(&mut lines) } else { None });
                    if !viol.is_empty() {
                        break;
                    }
                }
                Res { sched: self.clone(), viol, stats, states, hash, lines, corner: None }
            }
            Sched::Alloc(cfg, ops) => {
                let mut s = alloc::AStats { st: &mut stats, states: &mut states, hash: &mut hash };
                let viol = alloc::exec(cfg, ops, &mut s, if trace { Some(&mut lines) } else { None });
                Res { sched: self.clone(), viol, stats, states, hash, lines, corner: None }
            }
        }
    }
    pub fn world(&self) -> &'static str {
        match self {
            Sched::Solo(..) => "solo",
            Sched::Pair(..) => "pair",
            Sched::Corrupt(..) => "corrupt",
            Sched::Alloc(..) => "alloc",
            Sched::Giant(..) => "giant",
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Sched::Solo(_, s) => s.len(),
            Sched::Pair(_, s) => s.len(),
            Sched::Corrupt(s) => s.len(),
            Sched::Alloc(_, s) => s.len(),
            Sched::Giant(s) => s.len(),
        }
    }
    /// the schedule without the elements i..j
    pub fn without(&self, i: usize, j: usize) -> Sched {
        fn cut<T: Clone>(s: &[T], i: usize, j: usize) -> Vec<T> {
            let mut t = s.to_vec();
            t.drain(i..j.min(s.len()));
            t
        }
        match self {
            Sched::Solo(c, s) => Sched::Solo(*c, cut(s, i, j)),
            Sched::Pair(c, s) => Sched::Pair(c.clone(), cut(s, i, j)),
            Sched::Corrupt(s) => Sched::Corrupt(cut(s, i, j)),
            Sched::Alloc(c, s) => Sched::Alloc(*c, cut(s, i, j)),
            Sched::Giant(s) => Sched::Giant(cut(s, i, j)),
        }
    }
    /// simpler forms of element i
    pub fn simpler(&self, i: usize) -> Vec<Sched> {
        match self {
            Sched::Solo(c, s) => {
                let alts: Vec<Step> = match &s[i] {
                    Step::Feed(b, cuts) if !cuts.is_empty() => vec![Step::Feed(b.clone(), vec![])],
                    Step::Send { pk, v5, checked: true } => vec![Step::Send { pk: pk.clone(), v5: *v5, checked: false }],
                    Step::Probe(v) if v.len() > 1 => v.iter().map(|x| Step::Probe(vec![*x])).collect(),
                    _ => vec![],
                };
                alts.into_iter()
                    .map(|a| {
                        let mut t = s.clone();
                        t[i] = a;
                        Sched::Solo(*c, t)
                    })
                    .collect()
            }
            Sched::Pair(c, s) => {
                let alts: Vec<PStep> = match &s[i] {
                    PStep::Deliver(d, k) if *k != usize::MAX => vec![PStep::Deliver(*d, usize::MAX)],
                    PStep::Pub { side, qos, topic, len, alias, retain } => {
                        let mut v = vec![];
                        if *len > 4 {
                            v.push(PStep::Pub { side: *side, qos: *qos, topic: *topic, len: 4, alias: *alias, retain: *retain });
                        }
                        if *alias > 0 {
                            v.push(PStep::Pub { side: *side, qos: *qos, topic: *topic, len: *len, alias: 0, retain: *retain });
                        }
                        if *retain {
                            v.push(PStep::Pub { side: *side, qos: *qos, topic: *topic, len: *len, alias: *alias, retain: false });
                        }
                        v
                    }
                    PStep::Ack(s, true) => vec![PStep::Ack(*s, false)],
                    _ => vec![],
                };
                alts.into_iter()
                    .map(|a| {
                        let mut t = s.clone();
                        t[i] = a;
                        Sched::Pair(c.clone(), t)
                    })
                    .collect()
            }
            Sched::Corrupt(s) => {
                let d = &s[i];
                let mut v = vec![];
                for k in 0..d.body.len().min(64) {
                    let mut t = s.clone();
                    t[i].body.remove(k);
                    v.push(Sched::Corrupt(t));
                }
                v
            }
            Sched::Giant(_) => vec![],
            Sched::Alloc(c, s) => match s[i] {
                AOp::Alloc(n) if n > 1 => vec![1, n / 2, n - 1]
                    .into_iter()
                    .map(|k| {
                        let mut t = s.clone();
                        t[i] = AOp::Alloc(k);
                        Sched::Alloc(*c, t)
                    })
                    .collect(),
                _ => vec![],
            },
        }
    }
    pub fn text(&self) -> String {
        let mut o = format!("world {}\n", self.world());
        match self {
            Sched::Solo(c, s) => {
                o.push_str(&c.text());
                o.push('\n');
                for x in s {
                    o.push_str(&x.text(c.w));
                    o.push('\n');
                }
            }
            Sched::Pair(c, s) => {
                o.push_str(&c.text());
                o.push('\n');
                for x in s {
                    o.push_str(&x.text());
                    o.push('\n');
                }
            }
            Sched::Corrupt(s) => {
                for x in s {
                    o.push_str(&x.text());
                    o.push('\n');
                }
            }
            Sched::Giant(s) => {
                for x in s {
                    o.push_str(&x.text());
                    o.push('\n');
                }
            }
            Sched::Alloc(c, s) => {
                o.push_str(&format!("cfg {} {} {}\n", alloc::TYS[c.ty as usize], c.lo, c.hi));
                for x in s {
                    o.push_str(&alloc::op_text(x));
                    o.push('\n');
                }
            }
        }
        o
    }
    pub fn parse(t: &str) -> Option<Sched> {
        let mut l = t.lines().filter(|x| !x.trim().is_empty() && !x.starts_with('#'));
        match l.next()?.trim() {
            "world solo" => {
                let c = Cfg::parse(l.next()?)?;
                let mut s = vec![];
                for x in l {
                    s.push(Step::parse(x, c.w)?);
                }
                Some(Sched::Solo(c, s))
            }
            "world pair" => {
                let c = PCfg::parse(l.next()?)?;
                Some(Sched::Pair(c, l.map(PStep::parse).collect::<Option<_>>()?))
            }
            "world corrupt" => Some(Sched::Corrupt(l.map(Dmg::parse).collect::<Option<_>>()?)),
            "world giant" => Some(Sched::Giant(l.map(GCfg::parse).collect::<Option<_>>()?)),
            "world alloc" => {
                let f: Vec<&str> = l.next()?.split_whitespace().collect();
                let ty = alloc::TYS.iter().position(|x| Some(x) == f.get(1))? as u8;
                let c = ACfg { ty, lo: f.get(2)?.parse().ok()?, hi: f.get(3)?.parse().ok()? };
                Some(Sched::Alloc(c, l.map(alloc::op_parse).collect::<Option<_>>()?))
            }
            _ => None,
        }
    }
}

pub fn hits(v: &[Viol], prop: u32) -> bool {
    v.iter().any(|x| x.0 & c(prop) != 0)
}

/// delta debugging on the schedule; the violation must stay one of the same property
pub fn minimise(s: Sched, prop: u32, budget: std::time::Duration) -> Sched {
    let t0 = std::time::Instant::now();
    let bad = |s: &Sched| hits(&s.exec(false).viol, prop);
    let mut cur = s;
    let mut n = 2;
    while cur.len() >= 2 && t0.elapsed() < budget {
        let l = cur.len();
        let size = l.div_ceil(n);
        let mut done = false;
        let mut i = 0;
        while i < l {
            let cand = cur.without(i, i + size);
            if bad(&cand) {
                cur = cand;
                n = 2.max(n - 1);
                done = true;
                break;
            }
            i += size;
            if t0.elapsed() > budget {
                return cur;
            }
        }
        if !done {
            if n >= l {
                break;
            }
            n = (n * 2).min(l);
        }
    }
    let mut i = 0;
    while i < cur.len() && t0.elapsed() < budget {
        let mut again = true;
        while again && t0.elapsed() < budget {
            again = false;
            for a in cur.simpler(i) {
                if bad(&a) {
                    cur = a;
                    again = true;
                    break;
                }
            }
        }
        i += 1;
    }
    // once more, one by one
    let mut i = 0;
    while i < cur.len() && t0.elapsed() < budget {
        let cand = cur.without(i, i + 1);
        if bad(&cand) {
            cur = cand;
        } else {
            i += 1;
        }
    }
    cur
}
