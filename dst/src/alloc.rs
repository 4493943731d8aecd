//! The "alloc" world: the integer allocator under interleaved holders, exhaustion, crashes (clear) and
//! questions about values it does not own, next to a plain set of the values in use.

use crate::ep::guard;
use crate::model::*;
use crate::rng::Rng;
use crate::solo::Stats;
use mqtt_protocol_core::mqtt::ValueAllocator;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AOp {
    /// allocate n times
    Alloc(u32),
    Use(i128),
    /// release a value in range (free or not)
    Free(i128),
    /// release every used value v with lo <= v <= hi, ascending / descending
    FreeRun(i128, i128, bool),
    IsUsed(i128),
    First,
    Clear,
    /// continue on a clone
    Clone,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct ACfg {
    pub ty: u8,
    pub lo: i128,
    pub hi: i128,
}
pub const TYS: [&str; 10] = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "u128"];
fn bounds(ty: u8) -> (i128, i128) {
    match ty {
        0 => (0, u8::MAX as i128),
        1 => (0, u16::MAX as i128),
        2 => (0, u32::MAX as i128),
        3 => (0, u64::MAX as i128),
        4 => (0, usize::MAX as i128),
        5 => (i8::MIN as i128, i8::MAX as i128),
        6 => (i16::MIN as i128, i16::MAX as i128),
        7 => (i32::MIN as i128, i32::MAX as i128),
        8 => (i64::MIN as i128, i64::MAX as i128),
        _ => (0, i128::MAX / 4),
    }
}

pub fn op_text(o: &AOp) -> String {
    match o {
        AOp::Alloc(n) => format!("alloc {n}"),
        AOp::Use(v) => format!("use {v}"),
        AOp::Free(v) => format!("free {v}"),
        AOp::FreeRun(a, b, up) => format!("freerun {a} {b} {}", *up as u8),
        AOp::IsUsed(v) => format!("isused {v}"),
        AOp::First => "first".into(),
        AOp::Clear => "clear".into(),
        AOp::Clone => "clone".into(),
    }
}
pub fn op_parse(s: &str) -> Option<AOp> {
    let f: Vec<&str> = s.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<i128>().ok());
    Some(match *f.first()? {
        "alloc" => AOp::Alloc(n(1)? as u32),
        "use" => AOp::Use(n(1)?),
        "free" => AOp::Free(n(1)?),
        "freerun" => AOp::FreeRun(n(1)?, n(2)?, n(3)? != 0),
        "isused" => AOp::IsUsed(n(1)?),
        "first" => AOp::First,
        "clear" => AOp::Clear,
        "clone" => AOp::Clone,
        _ => return None,
    })
}

pub fn generate(r: &mut Rng, long: bool) -> (ACfg, Vec<AOp>) {
    let ty = r.us(TYS.len()) as u8;
    let (tlo, thi) = bounds(ty);
    let full = thi - tlo;
    let span = match r.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => r.range(2, 12) as i128,
        4 | 5 => r.range(13, 80) as i128,
        6 => r.range(81, 3000) as i128,
        _ => full,
    }
    .min(full);
    let lo = match r.below(5) {
        0 => tlo,
        1 => thi - span,
        2 if tlo < 0 && span < 100 => (-span / 2).max(tlo),
        3 => (1).min(thi - span).max(tlo),
        _ => tlo + (r.next() as i128 % (full - span + 1).max(1)),
    };
    let hi = lo + span;
    let cfg = ACfg { ty, lo, hi };
    let n = if long { r.range(50, 1500) } else { r.range(10, 250) };
    // swarm weights
    let mut wt = [0u32; 8];
    for x in wt.iter_mut() {
        *x = [0, 1, 4, 12][r.us(4)];
    }
    wt[0] += 3;
    wt[2] += 2;
    wt[6] = wt[6].min(1);
    wt[7] = wt[7].min(1);
    let deep = r.pct(20);
    let hot: Vec<i128> = (0..4).map(|_| lo + (r.next() as i128 % (span + 1))).collect();
    let mut ops = vec![];
    let value = |r: &mut Rng| -> i128 {
        let v = match r.below(10) {
            0 => lo,
            1 => hi,
            2 => lo + 1,
            3 => hi - 1,
            4..=6 => hot[r.us(4)] + r.below(3) as i128 - 1,
            7 => lo + r.below(8) as i128,
            _ => lo + (r.next() as i128 % (span + 1)),
        };
        v.clamp(lo, hi)
    };
    for _ in 0..n {
        match r.weighted(&wt).unwrap() {
            0 => {
                let k = if deep && r.pct(20) { r.range(1, (span as u64).saturating_add(2).min(3002)) } else { r.range(1, 3) };
                ops.push(AOp::Alloc(k as u32))
            }
            1 => ops.push(AOp::Use(value(r))),
            2 => ops.push(AOp::Free(value(r))),
            3 => {
                let a = value(r);
                let b = (a + r.below(12) as i128).min(hi);
                ops.push(AOp::FreeRun(a, b, r.bool()))
            }
            4 => {
                // also values the allocator does not own
                let v = match r.below(6) {
                    0 => (lo - 1).max(tlo),
                    1 => (hi + 1).min(thi),
                    2 => tlo,
                    3 => thi,
                    _ => value(r),
                };
                ops.push(if r.pct(25) && !(lo..=hi).contains(&v) { AOp::Use(v) } else { AOp::IsUsed(v) })
            }
            5 => ops.push(AOp::First),
            6 => ops.push(AOp::Clear),
            _ => ops.push(AOp::Clone),
        }
    }
    (cfg, ops)
}

/// the values in use, with the smallest free value and the number of maximal free runs kept up to date
struct Set {
    lo: i128,
    hi: i128,
    used: BTreeSet<i128>,
    first: i128,
    runs: isize,
}
impl Set {
    fn new(lo: i128, hi: i128) -> Set {
        Set { lo, hi, used: BTreeSet::new(), first: lo, runs: 1 }
    }
    fn free(&self, v: i128) -> bool {
        (self.lo..=self.hi).contains(&v) && !self.used.contains(&v)
    }
    fn add(&mut self, v: i128) {
        if self.used.insert(v) {
            // a free run of which v was a part: shrinks, splits or vanishes
            self.runs += self.free(v - 1) as isize + self.free(v + 1) as isize - 1;
            while self.used.contains(&self.first) {
                self.first += 1;
            }
        }
    }
    fn del(&mut self, v: i128) {
        if self.used.remove(&v) {
            self.runs += 1 - self.free(v - 1) as isize - self.free(v + 1) as isize;
            self.first = self.first.min(v);
        }
    }
    fn clear(&mut self) {
        *self = Set::new(self.lo, self.hi);
    }
    fn first(&self) -> Option<i128> {
        (self.first <= self.hi).then_some(self.first)
    }
    fn runs(&self) -> usize {
        self.runs as usize
    }
    fn is_used(&self, v: i128) -> bool {
        self.used.contains(&v)
    }
}

pub struct AStats<'a> {
    pub st: &'a mut Stats,
    pub states: &'a mut BTreeSet<u64>,
    pub hash: &'a mut u64,
}

macro_rules! runner {
    ($name:ident, $t:ty) => {
        fn $name(cfg: &ACfg, ops: &[AOp], s: &mut AStats, mut trace: Option<&mut Vec<String>>) -> Option<String> {
            let (tlo, thi) = bounds(cfg.ty);
            let mut a: ValueAllocator<$t> = match guard(|| ValueAllocator::new(cfg.lo as $t, cfg.hi as $t)) {
                Ok(a) => a,
                Err(p) => return Some(format!("new({}, {}) panicked: {p}", cfg.lo, cfg.hi)),
            };
            let mut m = Set::new(cfg.lo, cfg.hi);
            for o in ops {
                s.st.steps += 1;
                let mut near: Vec<i128> = vec![cfg.lo, cfg.hi];
                let mut bad: Option<String> = None;
                let r = guard(|| {
                    match o {
                        AOp::Alloc(n) => {
                            for _ in 0..*n {
                                s.st.calls += 1;
                                let want = m.first();
                                let got = a.allocate().map(|x| x as i128);
                                if got != want {
                                    bad = Some(format!("allocate gave {got:?}, the smallest free value is {want:?}"));
                                    break;
                                }
                                match got {
                                    Some(v) => {
                                        m.add(v);
                                        near.push(v);
                                    }
                                    None => {
                                        s.st.hit("fault: exhaustion");
                                        break;
                                    }
                                }
                            }
                        }
                        AOp::Use(v) => {
                            s.st.calls += 1;
                            let free = (cfg.lo..=cfg.hi).contains(v) && !m.is_used(*v);
                            let got = a.use_value(*v as $t);
                            if got != free {
                                bad = Some(format!("use_value({v}) gave {got}, free is {free}"));
                            } else if got {
                                m.add(*v);
                            } else {
                                s.st.hit("fault: reserving a value that is not free");
                            }
                            near.push(*v);
                        }
                        AOp::Free(v) => {
                            s.st.calls += 1;
                            if !m.is_used(*v) {
                                s.st.hit("fault: release of a free value");
                            }
                            a.deallocate(*v as $t);
                            m.del(*v);
                            near.push(*v);
                        }
                        AOp::FreeRun(x, y, up) => {
                            let mut l: Vec<i128> = m.used.range(*x..=*y).copied().collect();
                            if !*up {
                                l.reverse();
                            }
                            for v in l {
                                s.st.calls += 1;
                                a.deallocate(v as $t);
                                m.del(v);
                                near.push(v);
                                if a.interval_count() != m.runs() {
                                    bad = Some(format!("{} intervals after release of {v}, {} maximal runs", a.interval_count(), m.runs()));
                                    break;
                                }
                            }
                        }
                        AOp::IsUsed(v) => {
                            if !(cfg.lo..=cfg.hi).contains(v) {
                                s.st.hit("fault: query about a value out of range");
                            }
                            near.push(*v);
                        }
                        AOp::First => {}
                        AOp::Clear => {
                            s.st.hit("fault: all holders gone at once (clear)");
                            a.clear();
                            m.clear();
                        }
                        AOp::Clone => {
                            let b = a.clone();
                            a = b;
                        }
                    }
                    // after every operation the allocator looks exactly like the set
                    if bad.is_none() {
                        s.st.calls += 2;
                        let f = a.first_vacant().map(|x| x as i128);
                        if f != m.first() {
                            bad = Some(format!("first_vacant is {f:?}, expected {:?}", m.first()));
                        } else if a.interval_count() != m.runs() {
                            bad = Some(format!("{} intervals, {} maximal runs of free values", a.interval_count(), m.runs()));
                        }
                    }
                    if bad.is_none() {
                        let n = near.len();
                        for k in 0..n.min(8) {
                            let v = near[n - 1 - k];
                            for q in [v - 1, v, v + 1] {
                                if q < tlo || q > thi {
                                    continue;
                                }
                                s.st.calls += 1;
                                if a.is_used(q as $t) != m.is_used(q) {
                                    bad = Some(format!("is_used({q}) is {}, expected {}", a.is_used(q as $t), m.is_used(q)));
                                }
                            }
                        }
                        if cfg.hi - cfg.lo <= 16 {
                            for q in cfg.lo..=cfg.hi {
                                if a.is_used(q as $t) != m.is_used(q) {
                                    bad = Some(format!("is_used({q}) is {}, expected {}", a.is_used(q as $t), m.is_used(q)));
                                }
                            }
                        }
                    }
                });
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (cfg.ty, m.runs().min(6), m.used.len().min(12), m.is_used(cfg.lo), m.is_used(cfg.hi), m.first().is_none(), std::mem::discriminant(o)).hash(&mut h);
                (cfg.hi - cfg.lo).min(20).hash(&mut h);
                let d = h.finish();
                s.states.insert(d);
                *s.hash = (*s.hash ^ d ^ m.used.len() as u64).wrapping_mul(0x100000001b3);
                if let Some(t) = trace.as_deref_mut() {
                    t.push(format!("  {} -> used {} of {}..={}, first free {:?}, {} runs", op_text(o), m.used.len(), cfg.lo, cfg.hi, m.first(), m.runs()));
                }
                if let Err(p) = r {
                    return Some(format!("{} on {}..={} panicked: {p}", op_text(o), cfg.lo, cfg.hi));
                }
                if let Some(b) = bad {
                    return Some(format!("{} on {} {}..={}: {b}", op_text(o), TYS[cfg.ty as usize], cfg.lo, cfg.hi));
                }
            }
            // what is left is handed out in order (all of it, if that is little), and refused when it is gone
            let mut bad = None;
            let r = guard(|| {
                for _ in 0..200 {
                    let want = m.first();
                    let got = a.allocate().map(|x| x as i128);
                    if got != want {
                        bad = Some(format!("at the end allocate gave {got:?}, the smallest free value is {want:?}"));
                        return;
                    }
                    match got {
                        Some(v) => m.add(v),
                        None => return,
                    }
                    if a.interval_count() != m.runs() {
                        bad = Some(format!("at the end {} intervals, {} maximal runs of free values", a.interval_count(), m.runs()));
                        return;
                    }
                }
            });
            if let Err(p) = r {
                return Some(format!("allocating at the end panicked: {p}"));
            }
            if bad.is_some() {
                return bad;
            }
            // everything comes back, in an order unlike the one it went in
            let all: Vec<i128> = m.used.iter().copied().collect();
            let n = all.len();
            let r = guard(|| {
                let mut seen = HashSet::new();
                for k in 0..n {
                    let i = (k * 7919) % n;
                    if seen.insert(i) {
                        a.deallocate(all[i] as $t);
                    }
                }
                for (i, v) in all.iter().enumerate() {
                    if !seen.contains(&i) {
                        a.deallocate(*v as $t);
                    }
                }
                (a.interval_count(), a.first_vacant().map(|x| x as i128))
            });
            match r {
                Err(p) => Some(format!("releasing everything panicked: {p}")),
                Ok(x) if x != (1, Some(cfg.lo)) => Some(format!("with everything released there are {} intervals and the first free value is {:?}", x.0, x.1)),
                _ => None,
            }
        }
    };
}
runner!(run_u8, u8);
runner!(run_u16, u16);
runner!(run_u32, u32);
runner!(run_u64, u64);
runner!(run_us, usize);
runner!(run_i8, i8);
runner!(run_i16, i16);
runner!(run_i32, i32);
runner!(run_i64, i64);
runner!(run_u128, u128);

pub fn exec(cfg: &ACfg, ops: &[AOp], s: &mut AStats, trace: Option<&mut Vec<String>>) -> Vec<Viol> {
    let r = match cfg.ty {
        0 => run_u8(cfg, ops, s, trace),
        1 => run_u16(cfg, ops, s, trace),
        2 => run_u32(cfg, ops, s, trace),
        3 => run_u64(cfg, ops, s, trace),
        4 => run_us(cfg, ops, s, trace),
        5 => run_i8(cfg, ops, s, trace),
        6 => run_i16(cfg, ops, s, trace),
        7 => run_i32(cfg, ops, s, trace),
        8 => run_i64(cfg, ops, s, trace),
        _ => run_u128(cfg, ops, s, trace),
    };
    r.map(|x| vec![(C20, x)]).unwrap_or_default()
}
