//! The "solo" world: one library endpoint (and, per property, a lockstep twin) under the simulator.  The
//! executor owns the virtual clock, the timers, the transport and the life of the process; it applies recorded
//! steps, refusing (as no-ops) those a correctly written application cannot make.

use crate::ep::*;
use crate::model::*;
use crate::steps::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone)]
pub struct Stats {
    pub calls: u64,
    pub steps: u64,
    pub sim_ms: u64,
    pub count: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.count.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, o: &Stats) {
        self.calls += o.calls;
        self.steps += o.steps;
        self.sim_ms += o.sim_ms;
        for (k, n) in &o.count {
            *self.count.entry(k).or_insert(0) += n;
        }
    }
}

/// the model before the call, as far as the twins need it
struct Was {
    st: St,
    ver: Ver,
    pend: Vec<u8>,
}

struct Twin {
    ep: Box<dyn Ep>,
    /// C10: waiting for the CONNACK that decides whether a new session starts
    tentative: bool,
    /// C09: bytes of the unit in progress
    pend: Vec<u8>,
}

pub struct World {
    pub cfg: Cfg,
    pub ep: Box<dyn Ep>,
    pub m: Model,
    twin: Option<Twin>,
    prelog: Vec<Call>,
    opts: Vec<Call>,
    pub now: u64,
    pub deadline: [Option<u64>; 3],
    pub up: bool,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    /// all events of the last step, for the stub peer and the application stub
    pub seen: Vec<Ev>,
    pub trace: Option<Vec<String>>,
    /// running hash of everything observed: equal runs have equal hashes
    pub hash: u64,
    viol: Vec<Viol>,
}

fn mix(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

impl World {
    pub fn new(cfg: Cfg, trace: bool) -> World {
        let ep = make(cfg.role, cfg.w, cfg.ver);
        let twin = match cfg.twin {
            9 | 11 => Some(Twin { ep: make(cfg.role, cfg.w, cfg.ver), tentative: false, pend: vec![] }),
            _ => None,
        };
        World {
            cfg,
            ep,
            m: Model::new(cfg.role, cfg.w, cfg.ver),
            twin,
            prelog: vec![],
            opts: vec![],
            now: 0,
            deadline: [None; 3],
            up: false,
            stats: Stats::default(),
            states: BTreeSet::new(),
            seen: vec![],
            trace: if trace { Some(vec![]) } else { None },
            hash: 0xcbf29ce484222325,
            viol: vec![],
        }
    }

    fn tr(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(s());
        }
    }
    pub fn stop(&self) -> bool {
        !self.viol.is_empty() || self.m.corner.is_some()
    }

    fn call(&mut self, c: Call) -> Out {
        let was = Was { st: self.m.st, ver: self.m.ver, pend: if self.cfg.twin > 9 { self.m.pend.clone() } else { vec![] } };
        let out = self.ep.call(&c);
        self.stats.calls += 1;
        let post = if out.panic.is_some() {
            Post { stored: Ok(vec![]), handled: Ok(BTreeSet::new()), vacancy: Ok(None), ver: self.m.ver }
        } else {
            Post::of(self.ep.as_ref())
        };
        let v = self.m.apply(&c, &out, &post);
        let line = format!("{:?} -> {} {:?}{}", Short(&c), showevs(&out.evs), out.ret, out.panic.as_ref().map(|p| format!(" PANIC {p}")).unwrap_or_default());
        mix(&mut self.hash, line.as_bytes());
        self.tr(|| format!("    {line}"));
        self.states.insert(self.m.digest());
        for x in v {
            self.viol.push(x);
        }
        // timers
        if let Call::Fire(k) = &c {
            self.deadline[*k as usize] = None;
        }
        for e in &out.evs {
            match e {
                Ev::Reset(k, d) => self.deadline[*k as usize] = Some(self.now.saturating_add(*d)),
                Ev::Cancel(k) => self.deadline[*k as usize] = None,
                _ => {}
            }
        }
        if out.panic.is_none() {
            self.twins(&c, &out, &post, &was);
        }
        self.seen.extend(out.evs.iter().cloned());
        out
    }

    // ------------------------------------------------------------------ twins

    fn twin_diff(&mut self, what: &str, a: &Out, b: &Out, post: &Post, getters: bool) {
        let tag = c(self.cfg.twin as u32);
        let mut bad = None;
        if b.panic.is_some() {
            bad = Some(format!("the twin panicked: {:?}", b.panic));
        } else if a.evs != b.evs {
            bad = Some(format!("events differ: {} vs twin {}", showevs(&a.evs), showevs(&b.evs)));
        } else if a.ret != b.ret {
            bad = Some(format!("results differ: {:?} vs twin {:?}", a.ret, b.ret));
        } else if getters {
            let t = self.twin.as_ref().unwrap();
            let q = Post::of(t.ep.as_ref());
            if q.stored != post.stored {
                bad = Some(format!("stores differ: {:?} vs twin {:?}", post.stored, q.stored));
            } else if q.handled != post.handled {
                bad = Some(format!("handled ids differ: {:?} vs twin {:?}", post.handled, q.handled));
            } else if q.vacancy != post.vacancy {
                bad = Some(format!("vacancies differ: {:?} vs twin {:?}", post.vacancy, q.vacancy));
            } else if q.ver != post.ver {
                bad = Some(format!("versions differ: {:?} vs twin {:?}", post.ver, q.ver));
            }
        }
        if let Some(b) = bad {
            self.viol.push((tag, format!("{what}: {b}")));
        }
    }

    fn twins(&mut self, c: &Call, out: &Out, post: &Post, was: &Was) {
        let setter = matches!(c, Call::Opt(..) | Call::Interval(_) | Call::PingrespTo(_));
        if setter {
            self.opts.push(c.clone());
        }
        match self.cfg.twin {
            9 => self.twin9(c, out, post, was),
            10 => self.twin10(c, out, post, was),
            11 => {
                let refused = matches!(c, Call::Send { .. })
                    && out.evs.iter().any(|e| matches!(e, Ev::Error(_)))
                    && !out.evs.iter().any(|e| matches!(e, Ev::Send { .. }));
                let t = self.twin.as_mut().unwrap();
                if refused {
                    for e in &out.evs {
                        if let Ev::Released(i) = e {
                            t.ep.call(&Call::Release(*i));
                        }
                    }
                    let none = Out { evs: vec![], ret: Ret::None, panic: None };
                    self.twin_diff("a refused send left a trace", &none, &none, post, true);
                } else {
                    let b = t.ep.call(c);
                    self.twin_diff("after refused sends the connection behaves differently", out, &b, post, true);
                }
            }
            16 => {
                // until the session is resumed only what resuming needs is compared
                if self.twin.is_some() && was.st == St::Disc && self.m.st == St::Disc {
                    let empty = self.twin.as_ref().unwrap().tentative;
                    let other = match c {
                        Call::Recv(..) => !out.evs.is_empty(),
                        Call::Send { .. } => empty,
                        Call::Fire(_) => true,
                        _ => false,
                    };
                    if other {
                        self.twin = None;
                    }
                }
                if self.twin.is_some() {
                    let b = self.twin.as_mut().unwrap().ep.call(c);
                    self.twin_diff("the restored object differs from the survivor", out, &b, post, true);
                }
            }
            17 => self.twin17(c, out, post, was),
            _ => {}
        }
    }

    fn twin9(&mut self, c: &Call, out: &Out, post: &Post, was: &Was) {
        let t = self.twin.as_mut().unwrap();
        match c {
            Call::Recv(b, pos) => {
                let Ret::Consumed(n) = out.ret else { return };
                let end = (pos + n).min(b.len());
                t.pend.extend_from_slice(&b[*pos..end]);
                let whole = match next_unit(&t.pend) {
                    Unit::Frame { len, .. } | Unit::BadLen { len } => len,
                    Unit::Partial => 0,
                };
                let _ = was;
                if whole > 0 {
                    let unit = std::mem::take(&mut t.pend);
                    let l = unit.len();
                    let mut o = t.ep.call(&Call::Recv(unit, 0));
                    if o.panic.is_none() && o.ret != Ret::Consumed(l) {
                        self.viol.push((C09, format!("a whole packet of {l} bytes was consumed as {:?}", o.ret)));
                        return;
                    }
                    o.ret = out.ret.clone();
                    self.twin_diff("chunked and whole-packet feeding differ", out, &o, post, true);
                }
            }
            _ => {
                if matches!(c, Call::Close) {
                    t.pend.clear();
                }
                let b = t.ep.call(c);
                self.twin_diff("after chunked feeding the connection behaves differently", out, &b, post, true);
            }
        }
    }

    fn twin10(&mut self, c: &Call, out: &Out, post: &Post, was: &Was) {
        let began = was.st == St::Disc && self.m.st == St::Connecting;
        if began {
            // a fresh object with the same options
            let mut ep = make(self.cfg.role, self.cfg.w, self.m.ver);
            for o in &self.opts {
                ep.call(o);
            }
            let (clean, unit) = match c {
                Call::Send { pk: Pk::Connect(k), .. } => {
                    if !was.pend.is_empty() {
                        // the transport was already up and a frame is under way
                        ep.call(&Call::Recv(was.pend.clone(), 0));
                    }
                    (k.clean, c.clone())
                }
                Call::Recv(b, pos) => {
                    let Ret::Consumed(n) = out.ret else { return };
                    let mut u = was.pend.clone();
                    u.extend_from_slice(&b[*pos..(pos + n).min(b.len())]);
                    let clean = matches!(decode(&u, self.m.v5(), self.m.w), Ok(Pk::Connect(k)) if k.clean);
                    (clean, Call::Recv(u, 0))
                }
                _ => return,
            };
            let mut o = ep.call(&unit);
            o.ret = out.ret.clone();
            self.twin = Some(Twin { ep, tentative: !clean, pend: vec![] });
            self.stats.hit("twin: reused object vs fresh object");
            self.twin_diff("a reused object differs from a fresh one", out, &o, post, clean);
            return;
        }
        if self.twin.is_none() {
            return;
        }
        let connacked = was.st == St::Connecting && self.m.st == St::Connected;
        if self.twin.as_ref().unwrap().tentative {
            if connacked && self.m.ids.is_empty() && self.m.store.is_empty() && self.m.handled.is_empty() {
                // new session: from here on they must agree
                let sp = match c {
                    Call::Send { pk: Pk::Connack { sp, .. }, .. } => *sp,
                    _ => self.seen_connack_sp(out),
                };
                if sp {
                    self.twin = None;
                    return;
                }
                let t = self.twin.as_mut().unwrap();
                t.tentative = false;
                let b = t.ep.call(c);
                self.twin_diff("a reused object that started a new session differs from a fresh one", out, &b, post, true);
                return;
            }
            let partial = matches!(c, Call::Recv(..)) && out.evs.is_empty();
            let setter = matches!(c, Call::Opt(..) | Call::Interval(_) | Call::PingrespTo(_));
            if partial || setter {
                self.twin.as_mut().unwrap().ep.call(c);
            } else {
                self.twin = None;
            }
            return;
        }
        let b = self.twin.as_mut().unwrap().ep.call(c);
        self.twin_diff("a reused object that started a new session differs from a fresh one", out, &b, post, true);
    }

    fn seen_connack_sp(&self, out: &Out) -> bool {
        out.evs.iter().any(|e| matches!(e, Ev::Recv { pk: Some(Pk::Connack { sp: true, .. }), .. }))
    }

    fn twin17(&mut self, c: &Call, out: &Out, post: &Post, was: &Was) {
        if let Some(t) = self.twin.as_mut() {
            let b = t.ep.call(c);
            self.twin_diff("a version-detecting server differs from one created with that version", out, &b, post, true);
            return;
        }
        if was.ver != Ver::Und {
            return;
        }
        if self.m.ver == Ver::Und {
            // before adoption: remember what configures the object
            match c {
                Call::Recv(..) | Call::Fire(_) | Call::Close => {}
                Call::Send { .. } => {
                    for e in &out.evs {
                        if let Ev::Released(i) = e {
                            self.prelog.push(Call::Release(*i));
                        }
                    }
                }
                _ => self.prelog.push(c.clone()),
            }
            return;
        }
        let Call::Recv(b, pos) = c else { return };
        let Ret::Consumed(n) = out.ret else { return };
        let mut ep = make(self.cfg.role, self.cfg.w, self.m.ver);
        for o in &self.prelog {
            ep.call(o);
        }
        let mut u = was.pend.clone();
        u.extend_from_slice(&b[*pos..(pos + n).min(b.len())]);
        let mut o = ep.call(&Call::Recv(u, 0));
        o.ret = out.ret.clone();
        self.twin = Some(Twin { ep, tentative: false, pend: vec![] });
        self.stats.hit("twin: undetermined vs fixed-version server");
        self.twin_diff("a version-detecting server differs from one created with that version", out, &o, post, true);
    }

    // ------------------------------------------------------------------ steps

    /// May a correct application make this step now?
    pub fn legal(&self, s: &Step) -> bool {
        let m = &self.m;
        if m.tainted {
            // what the peer got the library to accept is not certain: the application only waits, hangs up, and
            // starts over
            return match s {
                Step::Feed(..) | Step::Advance(_) | Step::Close => true,
                Step::Send { pk: Pk::Connect(c), v5, .. } => c.clean && !m.taint_conn && !m.closing && *v5 == m.v5() && !self.up,
                _ => false,
            };
        }
        match s {
            Step::Send { pk, v5, .. } => {
                if let Some(i) = pk.own_id() {
                    if m.ids.get(&i).is_some_and(|o| *o != Own::App) {
                        return false;
                    }
                }
                match pk {
                    Pk::Ack { k: 6, pid, .. } => match m.ids.get(pid) {
                        None | Some(Own::P2Gap) => true,
                        Some(Own::App) => m.strict() && *v5 == m.v5() && self.cfg.twin != 16,
                        _ => false,
                    },
                    Pk::Connect(_) => !m.closing,
                    Pk::Connack { sp, rc, .. } => !(m.as_client && m.st == St::Connecting) && !(*sp && *rc != 0),
                    _ => true,
                }
            }
            Step::Release(i) => m.ids.get(i).is_none_or(|o| *o == Own::App),
            Step::Opt(o, true) if *o == O_OFFLINE => m.st == St::Disc || m.persistent,
            Step::SendError(i) => {
                m.rel_on_err.contains(i)
                    && m.ids.get(i).is_some_and(|o| matches!(o, Own::Sub | Own::Unsub | Own::P1 | Own::P2Rec))
                    && !m.orphan.contains(i)
            }
            Step::Stale(k) => m.everarmed[*k as usize] && m.ver != Ver::Und && self.up,
            Step::Exhaust => m.w == 2,
            _ => true,
        }
    }

    /// Apply one step; the violations found, if any.
    pub fn step(&mut self, s: &Step) -> Vec<Viol> {
        self.seen.clear();
        if self.stop() {
            return vec![];
        }
        let w = self.cfg.w;
        if !self.legal(s) {
            self.tr(|| format!("  (skipped, not a legal step here) {}", s.text(w)));
            return vec![];
        }
        self.tr(|| format!("  {}", s.text(w)));
        self.stats.steps += 1;
        match s {
            Step::Send { pk, v5, checked } => {
                if matches!(pk, Pk::Connect(_)) {
                    self.up = true;
                }
                self.call(Call::Send { pk: pk.clone(), v5: *v5, checked: *checked });
            }
            Step::Acquire => {
                self.call(Call::Acquire);
            }
            Step::Register(i) => {
                self.call(Call::Register(*i));
            }
            Step::Release(i) => {
                self.call(Call::Release(*i));
            }
            Step::Erase(i) => {
                self.call(Call::Erase(*i));
            }
            Step::Opt(o, b) => {
                self.call(Call::Opt(*o, *b));
            }
            Step::Interval(x) => {
                self.call(Call::Interval(*x));
            }
            Step::PingrespTo(x) => {
                self.call(Call::PingrespTo(*x));
            }
            Step::Regulate(pk) => {
                self.call(Call::Regulate(pk.clone()));
            }
            Step::Feed(b, cuts) => self.feed(b, cuts),
            Step::Advance(ms) => self.advance(*ms),
            Step::Stale(k) => {
                self.stats.hit("fault: timer expiry raced with cancel");
                self.call(Call::Fire(*k));
            }
            Step::Close => {
                if !self.m.pend.is_empty() {
                    self.stats.hit("fault: transport lost inside a frame");
                }
                if self.m.strict() && self.m.inflight() > 0 {
                    self.stats.hit("fault: transport lost with exchanges in flight");
                }
                if self.m.st == St::Connecting {
                    self.stats.hit("fault: transport lost while connecting");
                }
                self.stats.hit("fault: transport loss");
                self.up = false;
                self.call(Call::Close);
            }
            Step::Crash => self.crash(None),
            Step::CrashBusy(n) => self.crash(Some(*n)),
            Step::SendError(i) => {
                self.stats.hit("fault: send error reported for a packet");
                self.call(Call::Release(*i));
                self.m.closing = true;
            }
            Step::Probe(l) => {
                for i in l {
                    if self.stop() {
                        break;
                    }
                    let o = self.call(Call::Register(*i));
                    if o.ret == Ret::Unit(Ok(())) && !self.stop() {
                        self.call(Call::Release(*i));
                    }
                }
            }
            Step::Exhaust => {
                self.stats.hit("fault: identifier exhaustion");
                self.exhaust();
            }
        }
        std::mem::take(&mut self.viol)
    }

    /// Every identifier can be in use at once, exhaustion is an error, and everything comes back.
    fn exhaust(&mut self) {
        let mut got: BTreeSet<u32> = BTreeSet::new();
        let mut bad = None;
        let call = |w: &mut World, c: Call| {
            w.stats.calls += 1;
            let o = w.ep.call(&c);
            if matches!(w.cfg.twin, 9..=17) {
                if let Some(t) = w.twin.as_mut() {
                    t.ep.call(&c);
                }
            }
            o
        };
        loop {
            let o = call(self, Call::Acquire);
            match o.ret {
                Ret::Id(Ok(i)) if i >= 1 && i <= self.m.maxid && !self.m.ids.contains_key(&i) && got.insert(i) => {}
                Ret::Id(Ok(i)) => {
                    bad = Some(format!("acquire handed out {i}, which is in use or out of range"));
                    break;
                }
                _ => {
                    if (got.len() + self.m.ids.len()) as u32 != self.m.maxid || o.panic.is_some() {
                        bad = Some(format!(
                            "acquire failed ({:?}) with {} of {} identifiers in use",
                            o,
                            got.len() + self.m.ids.len(),
                            self.m.maxid
                        ));
                    }
                    break;
                }
            }
        }
        // back in an order that is neither ascending nor descending
        let v: Vec<u32> = got.into_iter().collect();
        let n = v.len();
        for k in 0..n {
            let i = v[(k * 7919) % n];
            let i = if n % 7919 == 0 { v[k] } else { i };
            let o = call(self, Call::Release(i));
            if bad.is_none() && (o.panic.is_some() || o.evs != vec![Ev::Released(i)]) {
                bad = Some(format!("release of {i} gave {o:?}"));
            }
        }
        if let Some(b) = bad {
            self.viol.push((C08, b));
        }
    }

    fn feed(&mut self, b: &[u8], cuts: &[usize]) {
        self.up = true;
        let mut i = 0;
        let mut k = 0;
        let mut calls = 0;
        while i < b.len() || (b.is_empty() && k == 0) {
            let n = match cuts.get(k) {
                Some(x) => (*x).min(b.len() - i),
                None => b.len() - i,
            };
            // many small frames in a large buffer: read on in pieces
            let n = if calls > 16 { n.min(4096) } else { n };
            k += 1;
            let chunk = b[i..i + n].to_vec();
            i += n;
            let mut pos = 0;
            loop {
                let o = self.call(Call::Recv(chunk.clone(), pos));
                if self.stop() {
                    return;
                }
                let Ret::Consumed(c) = o.ret else { return };
                pos += c;
                calls += 1;
                if pos >= chunk.len() || c == 0 {
                    break;
                }
                if calls > 16 && chunk.len() - pos > 4096 {
                    i -= chunk.len() - pos;
                    break;
                }
            }
            if k > b.len() + cuts.len() + 2 {
                break;
            }
        }
    }

    fn advance(&mut self, ms: u64) {
        let until = self.now.saturating_add(ms);
        let mut fired = 0;
        loop {
            if self.stop() {
                return;
            }
            let next = (0..3).filter_map(|k| self.deadline[k].map(|d| (d, k))).min();
            match next {
                Some((d, k)) if d <= until && fired < 12 => {
                    self.stats.sim_ms += d.saturating_sub(self.now);
                    self.now = self.now.max(d);
                    fired += 1;
                    self.stats.hit(match k {
                        0 => "timer: PINGREQ send fired",
                        1 => "timer: keep-alive receive fired",
                        _ => "timer: PINGRESP timeout fired",
                    });
                    self.call(Call::Fire(k as u8));
                }
                _ => break,
            }
        }
        if fired < 12 {
            self.stats.sim_ms += until - self.now;
            self.now = until;
        }
    }

    fn crash(&mut self, busy: Option<u8>) {
        self.stats.hit("fault: process crash");
        let stored = self.ep.stored();
        let handled = self.ep.handled();
        let (Ok(stored), Ok(handled)) = (stored, handled) else { return };
        let empty = stored.is_empty() && handled.is_empty();
        let keep = self.m.persistent;
        let ver = if keep { self.m.ver } else { self.cfg.ver };
        let mut m = Model::new(self.cfg.role, self.cfg.w, ver);
        m.n_conn = self.m.n_conn;
        // an identifier held without anything in the store cannot be restored from the export
        let gap = !self.m.orphan.is_empty()
            || self.m.ids.iter().any(|(i, o)| match o {
                Own::P2Gap => true,
                Own::P1 | Own::P2Rec => !self.m.in_store(*i, true),
                Own::P2Comp => !self.m.in_store(*i, false),
                _ => false,
            });
        let ep = make(self.cfg.role, self.cfg.w, ver);
        let old = std::mem::replace(&mut self.ep, ep);
        let old_m = std::mem::replace(&mut self.m, m);
        self.deadline = [None; 3];
        self.up = false;
        self.twin = None;
        let twin = self.cfg.twin;
        self.cfg.twin = 0; // restoring is not a lockstep call
        let opts = std::mem::take(&mut self.opts);
        for o in opts.iter() {
            self.call(o.clone());
        }
        if keep {
            let v5 = self.m.v5();
            for _ in 0..busy.unwrap_or(0) {
                self.call(Call::Acquire);
            }
            if self.stop() {
                return;
            }
            if busy == Some(0) {
                self.call(Call::RestorePackets(stored.clone(), v5));
            }
            self.call(Call::RestorePackets(stored.clone(), v5));
            if busy.is_some() {
                self.stats.hit("fault: restore into an object that holds identifiers");
            }
            if !self.stop() {
                self.call(Call::RestoreHandled(handled.iter().copied().collect()));
            }
            self.stats.hit("fault: crash with session export and restore");
        }
        self.opts = opts;
        self.cfg.twin = twin;
        if twin == 9 || twin == 11 {
            // these twins live in the same process: they restart likewise
            let mut e = make(self.cfg.role, self.cfg.w, self.m.ver);
            for o in &self.opts {
                e.call(o);
            }
            if keep {
                for _ in 0..busy.unwrap_or(0) {
                    e.call(&Call::Acquire);
                }
                for _ in 0..1 + (busy == Some(0)) as u8 {
                    e.call(&Call::RestorePackets(stored.clone(), self.m.v5()));
                }
                e.call(&Call::RestoreHandled(handled.iter().copied().collect()));
            }
            self.twin = Some(Twin { ep: e, tentative: false, pend: vec![] });
        }
        if twin == 16 && keep && !gap && busy.is_none() && !self.stop() {
            let mut s = old;
            for (i, o) in &old_m.ids {
                if *o == Own::App {
                    s.call(&Call::Release(*i));
                }
            }
            s.call(&Call::Close);
            self.twin = Some(Twin { ep: s, tentative: empty, pend: vec![] });
            self.stats.hit("twin: restored object vs survivor");
        }
        if self.cfg.ver == Ver::Und && self.m.ver == Ver::Und {
            self.prelog = self.opts.clone();
            if keep {
                self.prelog.extend((0..busy.unwrap_or(0)).map(|_| Call::Acquire));
            }
        }
    }
}

struct Short<'a>(&'a Call);
impl std::fmt::Debug for Short<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 {
            Call::Send { pk, v5, checked } => write!(f, "send{}({} {})", if *checked { "_checked" } else { "" }, if *v5 { "v5" } else { "v3" }, showpk(pk)),
            Call::Recv(b, p) => write!(f, "recv({} @{p})", hex(b)),
            x => write!(f, "{x:?}"),
        }
    }
}
