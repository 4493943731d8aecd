//! The seeded scheduler of the solo world: decides, step by step and looking only at the observable past, what
//! the application, the peer, the network, the clock and the process do next.  Everything is drawn from one Rng.

use crate::ep::*;
use crate::model::*;
use crate::rng::Rng;
use crate::solo::*;
use crate::steps::*;
use crate::wire::*;
use std::collections::BTreeMap;

/// action categories
const A: usize = 27;
const A_PUB: usize = 0;
const A_SUB: usize = 1;
const A_OWE: usize = 2;
const A_REL: usize = 3;
const A_PING: usize = 4;
const A_DISC: usize = 5;
const A_AUTH: usize = 6;
const A_PEER: usize = 7;
const A_PEERPUB: usize = 8;
const A_PEERMISC: usize = 9;
const A_SLOPPY: usize = 10;
const A_BYZ: usize = 11;
const A_FEED: usize = 12;
const A_ADV: usize = 13;
const A_STALE: usize = 14;
const A_CLOSE: usize = 15;
const A_CRASH: usize = 16;
const A_SENDERR: usize = 17;
const A_PROBE: usize = 18;
const A_EXHAUST: usize = 19;
const A_REG: usize = 20;
const A_OPT: usize = 21;
const A_TIMEROPT: usize = 22;
const A_ID: usize = 23;
const A_ERASE: usize = 24;
const A_ILLEGAL: usize = 25;
const A_CONN: usize = 26;

/// the random shape of one run (swarm testing: every run switches features on and off)
pub struct Shape {
    pub len: usize,
    w: [u32; A],
    frag: u8,
    clean: u32,
    sei: u32,
    sp: u32,
    rm: u32,
    tam: u32,
    mps: u32,
    tiny: u32,
    ka: u32,
    fail: u32,
    alias: u32,
    props: u32,
    pad: u32,
    idx: u32,
    twin: usize,
    checked: u32,
    dupmsg: u32,
    late: u32,
    qos: [u32; 3],
    raw: u32,
    autopub: u32,
    ackfail: u32,
    /// how often a payload is blown up to where the Remaining Length takes another byte
    big: u32,
    /// bursts still to come
    burst: u32,
}

pub struct Gen {
    pub r: Rng,
    pub sh: Shape,
    pub steps: Vec<Step>,
    /// bytes the peer has written that the network has not delivered yet
    tx: Vec<u8>,
    /// packets of four length bytes made so far
    huge: u32,
    /// acknowledgements the peer owes
    owed: Vec<Pk>,
    /// the peer's own unfinished publishes: 0 sent, 1 released
    peer_out: BTreeMap<u32, (Publish, u8)>,
    /// acknowledgements the application owes
    owe: Vec<Pk>,
    /// PUBRECs received whose PUBREL is not sent yet
    serial: u32,
    v5: bool,
}

fn chance(r: &mut Rng, on: u32, v: &[u32]) -> u32 {
    if r.pct(on) {
        *r.pick(v)
    } else {
        0
    }
}

pub fn config(prop: u32, r: &mut Rng) -> Cfg {
    let role = match prop {
        17 => *r.pick(&[Role::Server, Role::Server, Role::Server, Role::Client, Role::Any]),
        _ => *r.pick(&[Role::Client, Role::Client, Role::Client, Role::Server, Role::Server, Role::Server, Role::Any]),
    };
    let w = if r.pct(70) { 2 } else { 4 };
    let v5 = match prop {
        12..=14 => r.pct(96),
        _ => r.pct(66),
    };
    let und = role != Role::Client
        && match prop {
            17 => r.pct(75),
            5 | 9 | 10 => r.pct(25),
            _ => r.pct(6),
        };
    let ver = if und {
        Ver::Und
    } else if v5 {
        Ver::V5
    } else {
        Ver::V3
    };
    let twin = match prop {
        9 | 10 | 11 | 16 | 17 => {
            if r.pct(85) {
                prop as u8
            } else {
                0
            }
        }
        _ => 0,
    };
    Cfg { role, w, ver, twin }
}

pub fn shape(prop: u32, tier_long: bool, r: &mut Rng) -> Shape {
    let mut w = [0u32; A];
    let base: [(usize, u32, u32); A] = [
        (A_PUB, 95, 20),
        (A_SUB, 60, 6),
        (A_OWE, 100, 20),
        (A_REL, 100, 15),
        (A_PING, 50, 4),
        (A_DISC, 40, 1),
        (A_AUTH, 30, 1),
        (A_PEER, 100, 22),
        (A_PEERPUB, 85, 16),
        (A_PEERMISC, 60, 5),
        (A_SLOPPY, 45, 5),
        (A_BYZ, 12, 4),
        (A_FEED, 100, 40),
        (A_ADV, 60, 6),
        (A_STALE, 15, 2),
        (A_CLOSE, 85, 4),
        (A_CRASH, 35, 2),
        (A_SENDERR, 20, 2),
        (A_PROBE, 40, 3),
        (A_EXHAUST, 0, 0),
        (A_REG, 15, 2),
        (A_OPT, 40, 2),
        (A_TIMEROPT, 30, 2),
        (A_ID, 50, 4),
        (A_ERASE, 20, 2),
        (A_ILLEGAL, 40, 5),
        (A_CONN, 100, 60),
    ];
    for (i, on, x) in base {
        if r.pct(on) {
            w[i] = (x * r.range(40, 200) as u32).div_ceil(100);
        }
    }
    let mut s = Shape {
        len: r.range(20, if tier_long { 260 } else { 130 }) as usize,
        w,
        frag: r.below(3) as u8,
        clean: *r.pick(&[0, 10, 30, 60, 100]),
        sei: *r.pick(&[0, 50, 90, 100]),
        sp: *r.pick(&[30, 70, 95, 100]),
        rm: *r.pick(&[0, 0, 40, 100]),
        tam: *r.pick(&[0, 0, 50, 100]),
        mps: *r.pick(&[0, 0, 0, 40, 100]),
        tiny: *r.pick(&[0, 10, 50]),
        ka: *r.pick(&[0, 40, 100]),
        fail: *r.pick(&[0, 0, 8, 20]),
        alias: *r.pick(&[0, 30, 70]),
        props: *r.pick(&[0, 10, 40]),
        pad: *r.pick(&[0, 10, 40]),
        idx: *r.pick(&[0, 0, 10, 40]),
        twin: r.us(5),
        checked: *r.pick(&[0, 30, 60]),
        dupmsg: *r.pick(&[0, 10, 30]),
        late: *r.pick(&[0, 20, 60]),
        qos: *r.pick(&[[3, 4, 4], [1, 5, 5], [1, 0, 6], [1, 6, 0], [6, 2, 2]]),
        raw: *r.pick(&[0, 0, 30]),
        autopub: 65,
        ackfail: 15,
        big: 0,
        burst: 0,
    };
    let up = |s: &mut Shape, i: usize, x: u32| s.w[i] = s.w[i].max(x);
    match prop {
        5 => {
            if r.pct(70) {
                up(&mut s, A_BYZ, 12);
                up(&mut s, A_SLOPPY, 8);
            }
            s.raw = *r.pick(&[0, 20, 50]);
        }
        6 => {
            s.clean = *r.pick(&[0, 5, 20]);
            s.sei = 95;
            s.sp = *r.pick(&[60, 95]);
            up(&mut s, A_CLOSE, 6);
            up(&mut s, A_PUB, 24);
            s.qos = *r.pick(&[[1, 5, 5], [1, 2, 8]]);
            s.late = *r.pick(&[20, 60]);
            up(&mut s, A_ERASE, 1);
        }
        7 => {
            up(&mut s, A_PEERPUB, 30);
            s.autopub = *r.pick(&[80, 0]);
            s.ackfail = *r.pick(&[5, 40]);
            up(&mut s, A_CLOSE, 5);
            s.qos = *r.pick(&[[1, 1, 6], [0, 0, 1], [1, 3, 3]]);
            s.clean = *r.pick(&[0, 10, 40]);
            s.sei = *r.pick(&[50, 95]);
            s.dupmsg = *r.pick(&[20, 50]);
            up(&mut s, A_CRASH, 2);
        }
        8 => {
            up(&mut s, A_ID, 8);
            up(&mut s, A_PROBE, 6);
            up(&mut s, A_CLOSE, 5);
            up(&mut s, A_SENDERR, 3);
            up(&mut s, A_ILLEGAL, 5);
            up(&mut s, A_SUB, 10);
            up(&mut s, A_ERASE, 2);
            if r.below(400) == 0 {
                s.w[A_EXHAUST] = 1;
            }
            s.idx = *r.pick(&[0, 20, 60]);
        }
        9 => {
            s.frag = *r.pick(&[1, 1, 2]);
            s.w[A_BYZ] = *r.pick(&[0, 3, 10]);
            s.raw = *r.pick(&[0, 20]);
            s.late = *r.pick(&[20, 80]);
        }
        10 => {
            up(&mut s, A_CLOSE, 7);
            s.clean = *r.pick(&[20, 50, 100]);
            s.rm = *r.pick(&[30, 80]);
            s.tam = *r.pick(&[30, 80]);
            s.mps = *r.pick(&[0, 30, 60]);
            s.ka = *r.pick(&[30, 80]);
            up(&mut s, A_SUB, 6);
            up(&mut s, A_PEERPUB, 16);
            s.w[A_CRASH] = 0;
        }
        11 => {
            up(&mut s, A_ILLEGAL, 25);
            s.checked = *r.pick(&[30, 70]);
            s.rm = *r.pick(&[0, 50]);
            s.tam = *r.pick(&[0, 70]);
            s.mps = *r.pick(&[0, 50]);
        }
        12 => {
            s.rm = *r.pick(&[60, 100, 100]);
            s.autopub = *r.pick(&[100, 50, 0]);
            s.ackfail = *r.pick(&[0, 15, 60]);
            up(&mut s, A_PUB, 30);
            up(&mut s, A_PEERPUB, 20);
            s.qos = *r.pick(&[[1, 5, 5], [1, 2, 8], [1, 8, 2]]);
            s.clean = *r.pick(&[0, 20, 60]);
            s.sei = *r.pick(&[30, 95]);
            up(&mut s, A_CLOSE, 4);
            up(&mut s, A_ERASE, 1);
        }
        13 => {
            s.tam = *r.pick(&[70, 100]);
            s.alias = *r.pick(&[30, 80]);
            up(&mut s, A_PUB, 40);
            up(&mut s, A_PEERPUB, 20);
            up(&mut s, A_OPT, 4);
            up(&mut s, A_REG, 2);
        }
        14 => {
            s.mps = *r.pick(&[80, 100]);
            s.pad = *r.pick(&[30, 80]);
            s.tam = *r.pick(&[0, 80]);
            s.sei = *r.pick(&[50, 95]);
            s.clean = *r.pick(&[0, 30]);
            up(&mut s, A_CLOSE, 4);
        }
        15 => {
            s.ka = *r.pick(&[80, 100]);
            up(&mut s, A_ADV, 14);
            up(&mut s, A_TIMEROPT, 5);
            up(&mut s, A_STALE, 2);
            up(&mut s, A_PING, 5);
            up(&mut s, A_CLOSE, 4);
            up(&mut s, A_DISC, 2);
        }
        16 => {
            up(&mut s, A_CRASH, 6);
            s.clean = *r.pick(&[0, 0, 10]);
            s.sei = 100;
            s.sp = *r.pick(&[80, 100]);
            up(&mut s, A_PUB, 20);
            s.qos = *r.pick(&[[1, 5, 5], [1, 2, 8]]);
            s.dupmsg = *r.pick(&[10, 40]);
        }
        17 => {
            up(&mut s, A_SLOPPY, 14);
            s.w[A_CRASH] = s.w[A_CRASH].min(1);
        }
        19 => {
            up(&mut s, A_SLOPPY, 8);
            up(&mut s, A_DISC, 3);
            up(&mut s, A_ADV, 8);
            s.ka = *r.pick(&[50, 100]);
            s.fail = *r.pick(&[10, 40]);
            s.mps = *r.pick(&[0, 60]);
            s.tiny = *r.pick(&[10, 60]);
        }
        _ => {}
    }
    if r.below(if matches!(prop, 9 | 14) { 25 } else { 80 }) == 0 {
        s.big = *r.pick(&[4, 15]);
    }
    if r.below(if matches!(prop, 12 | 13) { 60 } else { 400 }) == 0 {
        // some exchanges or aliases more than one byte can count
        s.burst = 2;
        s.rm = 100;
        s.tam = 100;
        s.mps = 0;
        s.fail = 0;
    }
    s
}

const TOPICS: &[&str] = &["a", "b", "t/1", "t/2", "x/y/z", "sensor/kitchen/temperature", "q", "$SYS/x", "topic/of/22/bytes/long", "topic/of/23/bytes/long/", "a/topic/name/of/exactly/forty/six/bytes/in/all", "\u{e9}/\u{5ba4}/\u{1f321}", LONG_TOPIC,
    // names that are nearly one of the others
    "A", "a/", "/a", "a ", "T/1", "\u{c9}/\u{5ba4}/\u{1f321}", "sensor/kitchen/temperaturf", LONG_TOPIC2];
/// names easily taken for one another
const TWINS: &[&[&str]] = &[&["a", "A", "a/", "/a", "a "], &["t/1", "T/1", "t/2"], &["\u{e9}/\u{5ba4}/\u{1f321}", "\u{c9}/\u{5ba4}/\u{1f321}"], &["sensor/kitchen/temperature", "sensor/kitchen/temperaturf"], &[LONG_TOPIC, LONG_TOPIC2]];
const LONG_TOPIC: &str = "a/very/long/topic/name/that/alone/takes/more/than/the/one/hundred/and/twenty/seven/bytes/a/one-byte/remaining/length/can/express/0123456789";
const LONG_TOPIC2: &str = "a/very/long/topic/name/that/alone/takes/more/than/the/one/hundred/and/twenty/seven/bytes/a/one-byte/remaining/length/can/express/0123456788";
const FILTERS: &[&str] = &["a", "t/+", "#", "x/#", "+/y/+", "q"];

impl Gen {
    pub fn new(prop: u32, tier_long: bool, mut r: Rng) -> (Gen, Cfg) {
        let cfg = config(prop, &mut r);
        let sh = shape(prop, tier_long, &mut r);
        let v5 = match cfg.ver {
            Ver::V5 => true,
            Ver::V3 => false,
            Ver::Und => r.bool(),
        };
        (
            Gen { r, sh, steps: vec![], tx: vec![], huge: 0, owed: vec![], peer_out: BTreeMap::new(), owe: vec![], serial: 0, v5 },
            cfg,
        )
    }

    /// generate and run; stops at the first violating step
    pub fn run(&mut self, w: &mut World) -> Vec<Viol> {
        // options first
        for o in [O_AUTOPUB, O_AUTOPING] {
            let on = if o == O_AUTOPUB { self.sh.autopub } else { 65 };
            if self.r.pct(on) {
                let v = self.exec(w, Step::Opt(o, true));
                if !v.is_empty() {
                    return v;
                }
            }
        }
        for o in [O_AUTOMAP, O_AUTOREPL, O_OFFLINE] {
            if self.r.pct(25) {
                let v = self.exec(w, Step::Opt(o, true));
                if !v.is_empty() {
                    return v;
                }
            }
        }
        if self.r.pct(40) {
            let x = *self.r.pick(&[1u64, 500, 3000, 20000]);
            let v = self.exec(w, Step::PingrespTo(x));
            if !v.is_empty() {
                return v;
            }
        }
        if self.r.pct(20) {
            let x = *self.r.pick(&[0u64, 1, 7000, 90000]);
            let v = self.exec(w, Step::Interval(Some(x)));
            if !v.is_empty() {
                return v;
            }
        }
        let mut tries = 0;
        while self.steps.len() < self.sh.len && tries < self.sh.len * 6 && !w.stop() {
            tries += 1;
            let v = self.one(w);
            if !v.is_empty() {
                return v;
            }
        }
        vec![]
    }

    fn exec(&mut self, w: &mut World, s: Step) -> Vec<Viol> {
        if w.stop() || !w.legal(&s) {
            return vec![];
        }
        let sent_connect = w.m.st == St::Disc;
        self.steps.push(s.clone());
        let v = w.step(&s);
        match &s {
            Step::Close | Step::Crash | Step::CrashBusy(_) => {
                self.tx.clear();
                self.owed.clear();
                self.owe.clear();
                if !matches!(s, Step::Close) {
                    self.owe.clear();
                }
            }
            _ => {}
        }
        if w.m.ver != Ver::Und {
            self.v5 = w.m.v5();
        }
        self.observe(w, sent_connect);
        v
    }

    // ------------------------------------------------------------------ what the stubs learn

    fn observe(&mut self, w: &World, was_disc: bool) {
        let _ = was_disc;
        let seen = w.seen.clone();
        for e in &seen {
            match e {
                Ev::Send { pk: Some(pk), .. } => match pk {
                    Pk::Connect(c) => {
                        self.owed.clear();
                        self.tx.clear();
                        let ca = self.connack(c.clean, w);
                        self.owed.push(ca);
                    }
                    Pk::Connack { sp, rc, .. } => {
                        if *rc == 0 {
                            self.peer_session(*sp, w);
                        }
                    }
                    Pk::Publish(p) => match p.qos {
                        1 => {
                            let rc = self.ackrc(4);
                            self.owed.push(self.mkack(4, p.pid, rc))
                        }
                        2 => {
                            let rc = self.ackrc(5);
                            self.owed.push(self.mkack(5, p.pid, rc))
                        }
                        _ => {}
                    },
                    Pk::Ack { k, pid, rc, .. } => match k {
                        4 | 7 => {
                            self.peer_out.remove(pid);
                        }
                        5 => {
                            if rc.is_some_and(|x| x >= 0x80) {
                                self.peer_out.remove(pid);
                            } else if let Some(x) = self.peer_out.get_mut(pid) {
                                x.1 = 1;
                                self.owed.push(ack(6, *pid));
                            } else {
                                self.owed.push(ack(6, *pid));
                            }
                        }
                        _ => self.owed.push(ack(7, *pid)),
                    },
                    Pk::Subscribe { pid, entries, .. } => {
                        let n = entries.len();
                        let l: &[u8] = if self.v5 { RC_SUBACK } else { &[0, 1, 2, 0x80] };
                        let codes = (0..n).map(|_| *self.r.pick(l)).collect();
                        self.owed.push(Pk::Suback { pid: *pid, codes, props: vec![] });
                    }
                    Pk::Unsubscribe { pid, topics, .. } => {
                        let codes = if self.v5 { topics.iter().map(|_| *self.r.pick(RC_UNSUBACK)).collect() } else { vec![] };
                        self.owed.push(Pk::Unsuback { pid: *pid, codes, props: vec![] });
                    }
                    Pk::Pingreq => self.owed.push(Pk::Pingresp),
                    Pk::Disconnect { .. } => self.owed.clear(),
                    _ => {}
                },
                Ev::Recv { pk: Some(pk), .. } => {
                    let auto = w.m.opt[O_AUTOPUB as usize];
                    match pk {
                        Pk::Publish(p) if !auto && p.qos > 0 => {
                            let k = if p.qos == 1 { 4 } else { 5 };
                            let rc = self.ackrc(k);
                            self.owe.push(self.mkack(k, p.pid, rc));
                        }
                        Pk::Ack { k: 6, pid, .. } if !auto => self.owe.push(ack(7, *pid)),
                        Pk::Pingreq if !w.m.opt[O_AUTOPING as usize] => self.owe.push(Pk::Pingresp),
                        Pk::Subscribe { pid, entries, .. } => self.owe.push(Pk::Suback {
                            pid: *pid,
                            codes: entries.iter().map(|x| if self.r.pct(80) { x.1 & 3 } else { 0x80 }).collect(),
                            props: vec![],
                        }),
                        Pk::Unsubscribe { pid, topics, .. } => self.owe.push(Pk::Unsuback {
                            pid: *pid,
                            codes: if self.v5 { topics.iter().map(|_| *self.r.pick(RC_UNSUBACK)).collect() } else { vec![] },
                            props: vec![],
                        }),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }

    /// a connection is established: the peer keeps or forgets its own half of the session
    fn peer_session(&mut self, sp: bool, w: &World) {
        if !sp {
            self.peer_out.clear();
            return;
        }
        let l: Vec<(u32, (Publish, u8))> = self.peer_out.iter().map(|(a, b)| (*a, b.clone())).collect();
        for (pid, (mut p, st)) in l {
            if st == 1 {
                self.owed.push(ack(6, pid));
            } else {
                p.dup = true;
                let mut p = p.without_alias();
                if p.topic.is_empty() {
                    p.topic = "a".into();
                }
                let _ = w;
                self.owed.push(Pk::Publish(p));
            }
        }
    }

    fn ackrc(&mut self, k: u8) -> Option<u8> {
        if !self.v5 || !self.r.pct(self.sh.ackfail) {
            return None;
        }
        let rc: &[u8] = match k {
            4 | 5 => RC_PUBACK,
            _ => RC_PUBREL,
        };
        Some(*self.r.pick(rc))
    }
    fn mkack(&self, k: u8, pid: u32, rc: Option<u8>) -> Pk {
        Pk::Ack { k, pid, rc, props: None }
    }

    // ------------------------------------------------------------------ packets

    fn rand_str(&mut self) -> String {
        let n = if self.r.pct(15) { *self.r.pick(&[10usize, 22, 46, 126]) + self.r.us(4) - 1 } else { self.r.us(6) };
        let wild = self.r.pct(20);
        (0..n)
            .map(|_| match self.r.below(8) {
                0 if wild => *self.r.pick(&['\u{e9}', '\u{3b1}', '\u{5ba4}', '\u{1f321}', ' ', '/', '$', '~']),
                _ => (b'a' + self.r.below(26) as u8) as char,
            })
            .collect()
    }
    fn rand_prop(&mut self, id: u8) -> (u8, PV) {
        let v = match id {
            1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => PV::B(self.r.below(2) as u8),
            19 | 33 | 34 | 35 => PV::W(self.r.range(1, 20) as u16),
            2 | 17 | 24 => PV::D(if self.r.bool() { self.r.range(1, 100) as u32 } else { self.r.next() as u32 }),
            39 => PV::D(self.r.range(20, 200) as u32),
            11 => PV::V(*self.r.pick(&[1, 127, 128, 16383, 16384, 268_435_455])),
            3 | 18 | 21 | 26 | 28 | 31 => PV::S(self.rand_str()),
            8 => PV::S("resp/1".into()),
            9 | 22 => {
                let n = if self.r.pct(15) { *self.r.pick(&[10usize, 22, 46, 126]) + self.r.us(4) - 1 } else { self.r.us(6) };
                PV::X((0..n).map(|_| self.r.next() as u8).collect())
            }
            _ => PV::P(self.rand_str(), self.rand_str()),
        };
        (id, v)
    }
    fn extra(&mut self, ids: &[u8], out: &mut Props) {
        if !self.r.pct(self.sh.props) {
            return;
        }
        for id in ids {
            if self.r.pct(30) && (*id == 38 || !out.iter().any(|p| p.0 == *id)) {
                let p = self.rand_prop(*id);
                out.push(p);
                if *id == 38 && self.r.pct(40) {
                    let p = self.rand_prop(38);
                    out.push(p);
                }
            }
        }
    }
    fn ka(&mut self) -> u16 {
        if self.r.pct(self.sh.ka) {
            match self.r.below(10) {
                0 => self.r.range(1, 65535) as u16,
                _ => *self.r.pick(&[1, 1, 2, 5, 10, 60, 1000, 65535]),
            }
        } else {
            0
        }
    }
    fn mps(&mut self) -> u32 {
        if !self.r.pct(self.sh.mps) {
            return 0;
        }
        if self.r.pct(self.sh.tiny) {
            self.r.range(1, 12) as u32
        } else {
            let m = *self.r.pick(&[13, 16, 20, 24, 32, 48, 64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 0]);
            match m {
                0 => *self.r.pick(&[16386, 16387, 16388, 65535, 65536, 65537, 65600, 131_080, 2_097_160, 268_435_460, u32::MAX]),
                _ => m,
            }
        }
    }
    fn limits(&mut self, props: &mut Props) {
        if self.sh.burst > 0 {
            props.push((33, PV::W(self.r.range(254, 258) as u16)));
            props.push((34, PV::W(self.r.range(254, 258) as u16)));
            return;
        }
        let rms = [1, 1, 2, 2, 3, 4, 1, 2, 3, 255, 256, 257, 65535];
        let x = chance(&mut self.r, self.sh.rm, &rms);
        if x > 0 {
            props.push((33, PV::W(x as u16)));
        }
        let x = chance(&mut self.r, self.sh.tam, &[1, 1, 2, 3, 5, 1, 2, 3, 255, 256, 257, 65535]);
        if x > 0 {
            props.push((34, PV::W(x as u16)));
        } else if self.r.pct(5) {
            props.push((34, PV::W(0)));
        }
        let x = self.mps();
        if x > 0 {
            props.push((39, PV::D(x)));
        }
    }
    fn connect(&mut self, v5: bool) -> Pk {
        let clean = self.r.pct(self.sh.clean);
        let mut props = vec![];
        if v5 {
            if self.r.pct(self.sh.sei) {
                let x = *self.r.pick(&[1u32, 30, 255, 256, 3600, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xff00_0000, u32::MAX]);
                props.push((17, PV::D(x)));
            } else if self.r.pct(20) {
                props.push((17, PV::D(0)));
            }
            self.limits(&mut props);
            self.extra(&[25, 23, 38], &mut props);
            if self.r.pct(self.sh.props) && self.r.pct(30) {
                props.push((21, PV::S("m".into())));
            }
            self.shuffle(&mut props);
        }
        let will = if self.r.pct(6) {
            let mut wp = vec![];
            if v5 {
                self.extra(P_WILL, &mut wp);
            }
            Some(Will { topic: "w/t".into(), payload: vec![1], qos: self.r.below(3) as u8, retain: self.r.bool(), props: wp })
        } else {
            None
        };
        let user = if self.r.pct(6) { Some("u".to_string()) } else { None };
        let pass = if user.is_some() && self.r.bool() { Some(vec![9]) } else { None };
        Pk::Connect(Connect { level: if v5 { 5 } else { 4 }, clean, ka: self.ka(), cid: "cid".into(), will, user, pass, props })
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.r.us(i + 1);
            v.swap(i, j);
        }
    }
    fn connack(&mut self, clean: bool, w: &World) -> Pk {
        let _ = w;
        if self.r.pct(self.sh.fail) {
            let rc = if self.v5 { *self.r.pick(&RC_CONNACK[1..]) } else { self.r.range(1, 5) as u8 };
            let mut props = vec![];
            if self.v5 && self.r.pct(25) {
                self.limits(&mut props);
                self.extra(&[28, 31, 38], &mut props);
            }
            return Pk::Connack { sp: false, rc, props };
        }
        let sp = if clean { self.r.pct(2) } else { self.r.pct(self.sh.sp) };
        let mut props = vec![];
        if self.v5 {
            self.limits(&mut props);
            if self.r.pct(15) {
                let x = *self.r.pick(&[0u32, 0, 10, 256, 3600, 0x1_0000, 0x8000_0000, u32::MAX]);
                props.push((17, PV::D(x)));
            }
            if self.r.pct(25) {
                let x = if self.r.pct(15) { self.r.range(1, 65535) as u16 } else { *self.r.pick(&[0u16, 1, 3, 30, 65535]) };
                props.push((19, PV::W(x)));
            }
            self.extra(&[36, 37, 18, 31, 38, 40, 41, 42, 26, 28], &mut props);
            self.shuffle(&mut props);
        }
        Pk::Connack { sp, rc: 0, props }
    }
    fn payload(&mut self) -> Vec<u8> {
        self.serial += 1;
        let mut p = self.serial.to_be_bytes()[2..].to_vec();
        if self.r.pct(20) {
            let n = self.r.us(30);
            p.extend(std::iter::repeat_n(0x55u8, n));
        }
        if self.r.pct(4) {
            // around the sizes where the small-buffer builds change representation
            let n = *self.r.pick(&[15usize, 31, 127, 255]) + self.r.us(3) - 1;
            p.resize(n, 0x56);
        }
        if self.r.pct(3) {
            p.clear();
        }
        p
    }
    fn topic(&mut self) -> String {
        match self.r.below(10) {
            0..=4 => self.r.pick(&TOPICS[..3]).to_string(),
            5..=7 => self.r.pick(TOPICS).to_string(),
            _ => {
                let l = TWINS[self.sh.twin % TWINS.len()];
                self.r.pick(l).to_string()
            }
        }
    }
    fn pid_any(&mut self, w: &World) -> u32 {
        if self.r.pct(self.sh.idx) {
            // small ones, the largest, and numbers equal to small ones in their low (or high) bits
            let l = [1, 2, w.m.maxid, w.m.maxid - 1, w.m.maxid / 2, 255, 256, 257, 258, 0x8001, 0x1_0001, 0x1_0002, 0x0100_0001, 0x8000_0001];
            let n = if w.m.maxid > 0xffff { l.len() } else { 10 };
            l[self.r.us(n)]
        } else {
            self.r.range(1, 6) as u32
        }
    }
    /// make the encoded packet exactly `n` bytes long, if payload can do it
    fn pad_to(&mut self, p: &mut Publish, n: usize, v5: bool, w: usize) {
        let have = Pk::Publish(p.clone()).encode(v5, w).len();
        if have < n {
            p.payload.extend(std::iter::repeat_n(0x2au8, n - have));
            let got = Pk::Publish(p.clone()).encode(v5, w).len();
            if got > n {
                let cut = (got - n).min(p.payload.len());
                p.payload.truncate(p.payload.len() - cut);
            }
        } else {
            let cut = (have - n).min(p.payload.len());
            p.payload.truncate(p.payload.len() - cut);
        }
    }
    /// the length a packet is blown up to, if it is
    fn edge(&mut self, lim: Option<u32>, qos: u8) -> Option<usize> {
        if self.sh.big > 0 && lim.is_none_or(|x| x >= 16386) && self.r.pct(self.sh.big) {
            // one unstored packet in twenty takes four length bytes, twice a run at most
            let huge = qos == 0 && self.huge < 2 && self.r.pct(5);
            if huge {
                self.huge += 1;
            }
            if let Some(l) = lim {
                if (l as usize) < if huge { 3_000_000 } else { 140_000 } {
                    return Some((l as i64 + *self.r.pick(&[-2, -1, 0, 0, 1, 2])) as usize);
                }
            }
            return Some(if huge {
                self.r.range(2_097_153, 2_097_159) as usize
            } else {
                let b = *self.r.pick(&[129, 16386, 65536, 65539]);
                self.r.range(b - 2, b + 3) as usize
            });
        }
        let m = lim? as i64;
        if m >= 8 && m < 4000 && self.r.pct(2 + self.sh.big / 2) {
            // over the limit by a power of the length's base
            let b = *self.r.pick(&[128, 256, 256, 16384, 65536, 65536]);
            return Some(self.r.range(b, b + m as u64) as usize);
        }
        if m > 400 {
            return None;
        }
        if !self.r.pct(self.sh.pad) {
            return None;
        }
        let d = *self.r.pick(&[-3i64, -1, 0, 0, 1, 2, 3]);
        Some((m + d).clamp(0, 400) as usize)
    }

    // ------------------------------------------------------------------ one scheduling decision

    fn one(&mut self, w: &mut World) -> Vec<Viol> {
        let m = &w.m;
        let mut wt = self.sh.w;
        if m.closing && w.up {
            // the application must close; a few things may still race with it
            if self.r.pct(75) {
                return self.exec(w, Step::Close);
            }
        } else if m.closing && self.r.pct(60) {
            return self.exec(w, Step::Close);
        }
        if m.peer_disc && self.r.pct(50) {
            return self.exec(w, Step::Close);
        }
        if m.tainted && self.r.pct(20) {
            return self.exec(w, Step::Close);
        }
        if self.tx.is_empty() {
            wt[A_FEED] = 0;
        } else if !self.r.pct(self.sh.late) {
            wt[A_FEED] *= 4;
        }
        if self.owed.is_empty() {
            wt[A_PEER] = 0;
        }
        if self.owe.is_empty() {
            wt[A_OWE] = 0;
        }
        if !m.ids.values().any(|o| *o == Own::P2Gap) {
            wt[A_REL] = 0;
        }
        if m.rel_on_err.is_empty() {
            wt[A_SENDERR] = 0;
        }
        if w.deadline.iter().all(|d| d.is_none()) {
            wt[A_ADV] /= 3;
        }
        match m.st {
            St::Disc => {
                for a in [A_PEERPUB, A_PEERMISC, A_SUB, A_PING, A_DISC, A_AUTH, A_OWE] {
                    wt[a] /= 12;
                }
                wt[A_SLOPPY] /= 2;
                wt[A_BYZ] /= 2;
                if !m.opt[O_OFFLINE as usize] {
                    wt[A_PUB] /= 6;
                }
                wt[A_CLOSE] /= 3;
                wt[A_CONN] = 60;
                if m.closing {
                    wt[A_CONN] = 4;
                }
            }
            St::Connecting => {
                for a in [A_PUB, A_PEERPUB, A_PEERMISC, A_SUB, A_PING, A_DISC, A_OWE] {
                    wt[a] /= 8;
                }
                wt[A_CONN] = if m.as_client { 0 } else { 60 };
                wt[A_CLOSE] = wt[A_CLOSE].div_ceil(2);
            }
            St::Connected => wt[A_CONN] = 0,
        }
        if m.tainted {
            for (i, x) in wt.iter_mut().enumerate() {
                if ![A_FEED, A_ADV, A_CLOSE, A_PEER, A_PEERPUB, A_PEERMISC, A_SLOPPY, A_BYZ, A_CONN].contains(&i) {
                    *x = 0;
                }
            }
        }
        if self.sh.burst > 0 && self.v5 && m.st == St::Connected && !m.tainted && !m.closing && self.r.pct(25) {
            self.sh.burst -= 1;
            return self.burst(w);
        }
        let Some(a) = self.r.weighted(&wt) else { return self.exec(w, Step::Advance(1)) };
        match a {
            A_PUB => self.a_pub(w),
            A_SUB => self.a_sub(w),
            A_OWE => {
                let i = if self.r.pct(80) { 0 } else { self.r.us(self.owe.len()) };
                let pk = self.owe.remove(i);
                self.send(w, pk)
            }
            A_REL => {
                let l: Vec<u32> = w.m.ids.iter().filter(|x| *x.1 == Own::P2Gap).map(|x| *x.0).collect();
                let pid = *self.r.pick(&l);
                let rc = if self.r.pct(10) { self.ackrc(6) } else { None };
                let pk = self.mkack(6, pid, rc);
                self.send(w, pk)
            }
            A_PING => {
                let pk = if w.m.as_client { Pk::Pingreq } else { Pk::Pingresp };
                self.send(w, pk)
            }
            A_DISC => {
                if self.r.pct(60) {
                    return vec![];
                }
                let pk = self.disconnect();
                self.send(w, pk)
            }
            A_AUTH => {
                let pk = self.auth();
                self.send(w, pk)
            }
            A_PEER => {
                let i = if self.r.pct(85) { 0 } else { self.r.us(self.owed.len()) };
                let pk = self.owed.remove(i);
                if self.r.pct(self.sh.dupmsg) && self.r.pct(30) {
                    // the peer repeats itself
                    self.owed.push(pk.clone());
                }
                match &pk {
                    Pk::Connack { sp, rc: 0, .. } => {
                        let sp = *sp;
                        self.peer(&pk, w);
                        self.peer_session(sp, w);
                    }
                    Pk::Ack { k: 6, .. } => self.peer(&pk, w),
                    _ => self.peer(&pk, w),
                }
                self.maybe_feed(w)
            }
            A_PEERPUB => {
                self.peer_publish(w, false);
                self.maybe_feed(w)
            }
            A_PEERMISC => {
                self.peer_misc(w);
                self.maybe_feed(w)
            }
            A_SLOPPY => {
                self.sloppy(w);
                self.maybe_feed(w)
            }
            A_BYZ => {
                self.byz(w);
                self.maybe_feed(w)
            }
            A_FEED => self.feed(w),
            A_ADV => {
                // a timer further away than a century is never waited for: the clock would saturate
                let next = w.deadline.iter().flatten().min().map(|d| d.saturating_sub(w.now)).filter(|d| *d < 1 << 42);
                let ms = match next {
                    Some(d) => match self.r.below(5) {
                        0 => d,
                        1 => d.saturating_sub(1),
                        2 => d / 2,
                        3 => d * 2,
                        _ => d + 1,
                    },
                    None => *self.r.pick(&[1u64, 1000, 100_000]),
                };
                self.exec(w, Step::Advance(ms))
            }
            A_STALE => {
                let k = self.r.below(3) as u8;
                self.exec(w, Step::Stale(k))
            }
            A_CLOSE => {
                if w.up || self.r.pct(10) {
                    self.exec(w, Step::Close)
                } else {
                    vec![]
                }
            }
            A_CRASH => {
                if self.r.pct(50) {
                    if self.r.pct(12) {
                        let n = self.r.below(4) as u8;
                        return self.exec(w, Step::CrashBusy(n));
                    }
                    self.exec(w, Step::Crash)
                } else {
                    vec![]
                }
            }
            A_SENDERR => {
                let l: Vec<u32> = w.m.rel_on_err.iter().copied().collect();
                let i = *self.r.pick(&l);
                self.exec(w, Step::SendError(i))
            }
            A_PROBE => {
                let mut l = vec![];
                for _ in 0..self.r.range(1, 6) {
                    l.push(match self.r.below(8) {
                        0 => 0,
                        1 => w.m.maxid,
                        2 => 1,
                        3 if !w.m.ids.is_empty() => {
                            let ks: Vec<u32> = w.m.ids.keys().copied().collect();
                            *self.r.pick(&ks)
                        }
                        _ => self.r.range(1, 12) as u32,
                    });
                }
                self.exec(w, Step::Probe(l))
            }
            A_EXHAUST => {
                self.sh.w[A_EXHAUST] = 0;
                self.exec(w, Step::Exhaust)
            }
            A_REG => {
                let p = self.publish(w);
                self.exec(w, Step::Regulate(Pk::Publish(p)))
            }
            A_OPT => {
                let o = self.r.below(5) as u8;
                let b = self.r.bool();
                self.exec(w, Step::Opt(o, b))
            }
            A_TIMEROPT => {
                if self.r.bool() {
                    let x = if self.r.pct(30) { None } else { Some(*self.r.pick(&[0u64, 1, 250, 5000, 60_000, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX])) };
                    self.exec(w, Step::Interval(x))
                } else {
                    let x = *self.r.pick(&[0u64, 1, 500, 3000, u32::MAX as u64 + 1, u64::MAX]);
                    self.exec(w, Step::PingrespTo(x))
                }
            }
            A_ID => match self.r.below(5) {
                0 | 1 => self.exec(w, Step::Acquire),
                2 => {
                    let i = if self.r.pct(10) { 0 } else { self.pid_any(w) };
                    self.exec(w, Step::Register(i))
                }
                _ => {
                    let i = if self.r.pct(70) && !w.m.ids.is_empty() {
                        let ks: Vec<u32> = w.m.ids.keys().copied().collect();
                        *self.r.pick(&ks)
                    } else if self.r.pct(15) {
                        0
                    } else {
                        self.pid_any(w)
                    };
                    self.exec(w, Step::Release(i))
                }
            },
            A_ERASE => {
                let ks: Vec<u32> = w.m.ids.keys().copied().collect();
                let i = if !ks.is_empty() && self.r.pct(80) { *self.r.pick(&ks) } else { self.r.below(5) as u32 };
                self.exec(w, Step::Erase(i))
            }
            A_ILLEGAL => self.illegal(w),
            _ => self.conn(w),
        }
    }

    fn send(&mut self, w: &mut World, pk: Pk) -> Vec<Viol> {
        let v5 = self.v5;
        let checked = self.r.pct(self.sh.checked);
        if w.m.v5() && pk.ty() == 15 && !v5 {
            return vec![];
        }
        self.exec(w, Step::Send { pk, v5, checked })
    }

    fn disconnect(&mut self) -> Pk {
        if !self.v5 || self.r.pct(50) {
            return Pk::Disconnect { rc: None, props: None };
        }
        let rc = Some(*self.r.pick(RC_DISC));
        let props = if self.r.pct(self.sh.props) {
            let mut p = vec![];
            self.extra(&[31, 38], &mut p);
            Some(p)
        } else {
            None
        };
        Pk::Disconnect { rc, props }
    }
    fn auth(&mut self) -> Pk {
        if self.r.pct(20) {
            return Pk::Auth { rc: Some(0), props: Some(vec![]) };
        }
        Pk::Auth { rc: Some(*self.r.pick(RC_AUTH)), props: Some(vec![(21, PV::S("m".into()))]) }
    }

    fn conn(&mut self, w: &mut World) -> Vec<Viol> {
        let m = &w.m;
        if m.st == St::Connecting {
            // the server application answers
            let clean = !m.session_started;
            let mut pk = self.connack(!clean, w);
            if let Pk::Connack { sp, rc: 0, .. } = &mut pk {
                if w.m.session_started {
                    *sp = false;
                } else {
                    *sp = self.r.pct(self.sh.sp);
                }
            }
            return self.send(w, pk);
        }
        let as_client = match w.cfg.role {
            Role::Client => true,
            Role::Server => false,
            Role::Any => self.r.bool(),
        };
        if w.m.ver == Ver::Und {
            self.v5 = self.r.pct(60);
        }
        if as_client {
            if w.up && self.r.pct(80) {
                return self.exec(w, Step::Close);
            }
            self.tx.clear();
            self.owed.clear();
            self.owe.clear();
            let mut pk = self.connect(self.v5);
            if w.m.tainted {
                if let Pk::Connect(c) = &mut pk {
                    c.clean = true;
                }
            }
            self.send(w, pk)
        } else {
            if !w.up {
                self.tx.clear();
            }
            self.owed.clear();
            self.owe.clear();
            let mut pk = self.connect(self.v5);
            if w.m.ver == Ver::Und && self.sh.w[A_BYZ] > 0 && self.r.pct(6) {
                // a level that is none, some of them one bit away from those that are
                if let Pk::Connect(c) = &mut pk {
                    c.level = *self.r.pick(&[0, 1, 2, 3, 6, 7, 0x0c, 0x14, 0x24, 0x44, 0x45, 0x84, 0x85, 255]);
                }
            }
            self.peer(&pk, w);
            self.maybe_feed(w)
        }
    }

    fn publish(&mut self, w: &mut World) -> Publish {
        let qos = self.r.weighted(&self.sh.qos).unwrap_or(0) as u8;
        let mut p = Publish {
            topic: self.topic(),
            qos,
            dup: qos > 0 && self.r.pct(4),
            retain: self.r.pct(10),
            pid: 0,
            payload: self.payload(),
            props: vec![],
        };
        if self.v5 {
            self.extra(&[1, 2, 8, 9, 38, 3], &mut p.props);
            let max = w.m.asend_max;
            if max > 0 && self.r.pct(self.sh.alias) {
                let a = match self.r.below(12) {
                    0 => max,
                    1 => max.saturating_add(1),
                    2 => u16::MAX,
                    _ => self.r.range(1, (max as u64).min(4)) as u16,
                };
                p.props.push((35, PV::W(a)));
                if self.r.pct(55) {
                    p.topic = String::new();
                }
            } else if self.r.pct(2) {
                p.props.push((35, PV::W(1)));
                if self.r.bool() {
                    p.topic = String::new();
                }
            }
            self.shuffle(&mut p.props);
        }
        if qos > 0 {
            p.dup = self.r.pct(5);
            p.pid = 1;
        }
        if let Some(n) = self.edge(w.m.mps_send, p.qos) {
            self.pad_to(&mut p, n, self.v5, w.cfg.w);
        }
        p
    }

    /// as many messages at once as fill a quota, or as many topics as fill an alias table
    fn burst(&mut self, w: &mut World) -> Vec<Viol> {
        let n = self.steps.len();
        let small = |topic: String, qos: u8, pid: u32| Publish { topic, qos, dup: false, retain: false, pid, payload: vec![7], props: vec![] };
        match self.r.below(3) {
            0 => {
                let Some(max) = w.m.recv_max else { return vec![] };
                let more = self.r.range(0, 2) as usize;
                let mut k = 1;
                while self.peer_out.len() < (max as usize).min(400) + more {
                    k += 1;
                    if self.peer_out.contains_key(&k) {
                        continue;
                    }
                    let q = 1 + self.r.below(2) as u8;
                    let p = small("a".into(), q, k);
                    self.peer_out.insert(k, (p.clone(), 0));
                    self.peer(&Pk::Publish(p), w);
                }
                let v = self.maybe_feed(w);
                self.sh.len += self.steps.len() - n;
                return v;
            }
            1 => {
                let qos = 1 + self.r.below(2) as u8;
                for _ in 0..260 {
                    let Ok(pid) = self.newid(w) else { break };
                    let v = self.send(w, Pk::Publish(small("a".into(), qos, pid)));
                    if !v.is_empty() {
                        return v;
                    }
                    if w.m.rel_on_err.len() > 400 || w.stop() {
                        break;
                    }
                }
            }
            _ => {
                let max = w.m.asend_max as u64;
                for k in 0..(max + 3).min(400) {
                    let t = if k >= 250 && self.r.pct(30) { self.r.below(k) } else { k };
                    let v = self.send(w, Pk::Publish(small(format!("n{t}"), 0, 0)));
                    if !v.is_empty() {
                        return v;
                    }
                    if w.stop() {
                        break;
                    }
                }
            }
        }
        self.sh.len += self.steps.len() - n;
        vec![]
    }

    /// an identifier for a new exchange
    fn newid(&mut self, w: &mut World) -> Result<u32, Vec<Viol>> {
        let held: Vec<u32> = w.m.ids.iter().filter(|x| *x.1 == Own::App).map(|x| *x.0).collect();
        if !held.is_empty() && self.r.pct(50) {
            return Ok(*self.r.pick(&held));
        }
        let before: Vec<u32> = held;
        let s = if self.r.pct(self.sh.idx) { Step::Register(self.pid_any(w)) } else { Step::Acquire };
        let v = self.exec(w, s);
        if !v.is_empty() {
            return Err(v);
        }
        let new = w.m.ids.iter().find(|x| *x.1 == Own::App && !before.contains(x.0)).map(|x| *x.0);
        new.or(before.first().copied()).ok_or(vec![])
    }

    fn a_pub(&mut self, w: &mut World) -> Vec<Viol> {
        let mut p = self.publish(w);
        if p.qos > 0 {
            p.pid = match self.newid(w) {
                Ok(i) => i,
                Err(v) => return v,
            };
            if self.r.pct(5) {
                // not immediately
                return vec![];
            }
        }
        self.send(w, Pk::Publish(p))
    }
    fn a_sub(&mut self, w: &mut World) -> Vec<Viol> {
        let pid = match self.newid(w) {
            Ok(i) => i,
            Err(v) => return v,
        };
        let pk = self.sub(pid);
        self.send(w, pk)
    }
    fn sub(&mut self, pid: u32) -> Pk {
        let n = self.r.range(1, 2);
        if self.r.pct(65) {
            let entries = (0..n).map(|_| (self.r.pick(FILTERS).to_string(), self.r.below(3) as u8)).collect();
            let mut props = vec![];
            if self.v5 {
                self.extra(P_SUB, &mut props);
            }
            Pk::Subscribe { pid, entries, props }
        } else {
            let topics = (0..n).map(|_| self.r.pick(FILTERS).to_string()).collect();
            Pk::Unsubscribe { pid, topics, props: vec![] }
        }
    }

    // ------------------------------------------------------------------ the peer

    fn peer(&mut self, pk: &Pk, w: &World) {
        let b = pk.encode(self.v5, w.cfg.w);
        self.tx.extend(b);
    }

    fn peer_publish(&mut self, w: &World, wild: bool) {
        let qos = self.r.weighted(&self.sh.qos).unwrap_or(0) as u8;
        let mut p = Publish {
            topic: self.topic(),
            qos,
            dup: false,
            retain: self.r.pct(10),
            pid: 0,
            payload: self.payload(),
            props: vec![],
        };
        if self.v5 {
            self.extra(P_PUBLISH.iter().copied().filter(|x| *x != 35).collect::<Vec<_>>().as_slice(), &mut p.props);
            let max = w.m.arecv_max;
            if max > 0 && self.r.pct(self.sh.alias) {
                let a = if self.r.pct(15) { max } else { self.r.range(1, (max as u64).min(4)) as u16 };
                p.props.push((35, PV::W(a)));
                if self.r.pct(60) && w.m.arecv.contains_key(&a) {
                    p.topic = String::new();
                }
            }
            self.shuffle(&mut p.props);
        }
        if qos > 0 {
            p.pid = self.pid_any(w);
            // the first copy may have been lost, or reached an earlier object
            p.dup = self.r.pct(10);
            if !wild {
                if self.peer_out.contains_key(&p.pid) {
                    // a retransmission of what the endpoint has not finished (only meaningful on resume, but harmless)
                    if !self.r.pct(self.sh.dupmsg) {
                        return;
                    }
                    let (q, st) = self.peer_out[&p.pid].clone();
                    if st == 0 {
                        let mut q = q.without_alias();
                        q.dup = !self.r.pct(15);
                        if q.topic.is_empty() {
                            q.topic = "a".into();
                        }
                        if self.v5 && w.m.arecv_max > 0 && self.r.pct(self.sh.alias / 2) {
                            // a retransmission may bind an alias as well
                            q.props.push((35, PV::W(self.r.range(1, (w.m.arecv_max as u64).min(4)) as u16)));
                        }
                        self.peer(&Pk::Publish(q), w);
                    } else {
                        self.peer(&ack(6, p.pid), w);
                    }
                    return;
                }
                if let Some(m) = w.m.recv_max {
                    if self.peer_out.len() >= m as usize && !self.r.pct(4) {
                        return;
                    }
                }
            }
            self.peer_out.insert(p.pid, (p.clone(), 0));
        }
        if let Some(n) = self.edge(w.m.mps_recv, p.qos) {
            self.pad_to(&mut p, n, self.v5, w.cfg.w);
        }
        if let Some(m) = w.m.mps_recv {
            if !wild && Pk::Publish(p.clone()).encode(self.v5, w.cfg.w).len() > m as usize && self.r.pct(80) {
                self.peer_out.remove(&p.pid);
                return;
            }
        }
        self.peer(&Pk::Publish(p), w);
    }

    fn peer_misc(&mut self, w: &World) {
        // what a conformant peer of this role sends unasked
        let client_peer = !w.m.as_client;
        let pk = if client_peer {
            match self.r.below(8) {
                0..=2 => Pk::Pingreq,
                3..=5 => {
                    let pid = self.pid_any(w);
                    self.sub(pid)
                }
                6 if self.v5 => self.auth(),
                _ => {
                    if self.r.pct(70) {
                        return;
                    }
                    self.disconnect()
                }
            }
        } else {
            match self.r.below(4) {
                0 if self.v5 => self.auth(),
                1 if self.v5 => {
                    if self.r.pct(60) {
                        return;
                    }
                    self.disconnect()
                }
                _ => Pk::Pingresp,
            }
        };
        self.peer(&pk, w);
    }

    /// well-formed frames at the wrong time, of the wrong kind, or beyond an agreed limit
    fn sloppy(&mut self, w: &World) {
        let pid = {
            let ks: Vec<u32> = w.m.ids.keys().copied().collect();
            if !ks.is_empty() && self.r.pct(50) {
                *self.r.pick(&ks)
            } else {
                self.pid_any(w)
            }
        };
        let pk = match self.r.below(16) {
            0..=3 => {
                let k = self.r.range(4, 7) as u8;
                let rc = self.ackrc(k);
                self.mkack(k, pid, rc)
            }
            4 => Pk::Suback { pid, codes: vec![0], props: vec![] },
            5 => Pk::Unsuback { pid, codes: if self.v5 { vec![0] } else { vec![] }, props: vec![] },
            6 => self.connect(self.v5),
            7 => {
                let c = self.r.bool();
                self.connack(c, w)
            }
            8 => Pk::Pingreq,
            9 => Pk::Pingresp,
            10 => {
                if self.v5 {
                    self.auth()
                } else {
                    // an AUTH under v3.1.1
                    self.tx.extend([0xf0, 0]);
                    return;
                }
            }
            11 => self.disconnect(),
            12 => self.sub(pid),
            13 => {
                // excess, oversize
                let n = self.r.range(1, 5);
                for _ in 0..n {
                    self.peer_publish(w, true);
                }
                return;
            }
            14 => {
                let mut p = Publish { topic: self.topic(), qos: self.r.below(3) as u8, dup: false, retain: false, pid: 0, payload: self.payload(), props: vec![] };
                if p.qos > 0 {
                    p.pid = pid;
                }
                if self.v5 {
                    let a = match self.r.below(4) {
                        0 => w.m.arecv_max.saturating_add(1),
                        1 => u16::MAX,
                        _ => self.r.range(1, 5) as u16,
                    };
                    p.props.push((35, PV::W(a)));
                    if self.r.pct(70) {
                        p.topic = String::new();
                    }
                }
                Pk::Publish(p)
            }
            _ => {
                // the other protocol version
                let v = !self.v5;
                let pk = match self.r.below(4) {
                    0 => self.connect(v),
                    1 => Pk::Connack { sp: false, rc: 0, props: vec![] },
                    2 => Pk::Publish(Publish { topic: self.topic(), qos: 1, dup: false, retain: false, pid, payload: vec![1], props: vec![] }),
                    _ => ack(4, pid),
                };
                let b = pk.encode(v, w.cfg.w);
                self.tx.extend(b);
                return;
            }
        };
        self.peer(&pk, w);
    }

    /// frames damaged on the way, or nothing like frames at all
    fn byz(&mut self, w: &World) {
        if self.r.pct(self.sh.raw) {
            match self.r.below(4) {
                0 => {
                    let n = self.r.range(1, 12);
                    let b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                    self.tx.extend(b);
                }
                1 => {
                    // Remaining Length of more than four bytes
                    let b0 = self.r.next() as u8;
                    self.tx.extend([b0, 0x80 | self.r.next() as u8, 0xff, 0x80, 0x80]);
                    if self.r.bool() {
                        self.tx.push(self.r.next() as u8);
                    }
                }
                2 => {
                    // a frame of arbitrary content but exact length
                    let n = self.r.us(20);
                    let b0 = (self.r.range(0, 15) as u8) << 4 | self.r.below(16) as u8;
                    let body: Vec<u8> = (0..n).map(|_| if self.r.bool() { self.r.next() as u8 } else { self.r.below(8) as u8 }).collect();
                    self.tx.extend(frame(b0, &body));
                }
                _ => {
                    // a claim of a very long frame that never comes
                    let b0 = (self.r.range(1, 15) as u8) << 4;
                    self.tx.extend([b0, 0xff, 0xff, 0xff, 0x7f, 1, 2]);
                }
            }
            return;
        }
        let keep = std::mem::take(&mut self.tx);
        let owed = self.owed.len();
        match self.r.below(4) {
            0 => self.peer_publish(w, true),
            1 => self.peer_misc(w),
            2 if w.m.st == St::Disc && w.cfg.role != Role::Client => {
                let v = if w.m.ver == Ver::Und { self.r.bool() } else { self.v5 };
                let b = self.connect(v).encode(v, w.cfg.w);
                self.tx.extend(b);
            }
            2 if owed > 0 => {
                let pk = self.owed[self.r.us(owed)].clone();
                self.peer(&pk, w);
            }
            _ => self.sloppy(w),
        }
        let mut f = std::mem::replace(&mut self.tx, keep);
        if f.is_empty() {
            return;
        }
        for _ in 0..self.r.range(1, 2) {
            let (hdr, len) = match next_unit(&f) {
                Unit::Frame { hdr, len } => (hdr, len),
                _ => (1, f.len()),
            };
            match self.r.below(8) {
                0 | 1 => {
                    let i = self.r.us(f.len());
                    f[i] ^= 1 << self.r.below(8);
                }
                2 => {
                    let i = self.r.us(f.len());
                    f[i] = *self.r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 2, 4]);
                }
                3 => {
                    // truncated body, length adjusted
                    if len > hdr && hdr == 2 {
                        let n = hdr + self.r.us(len - hdr);
                        let body = f[hdr..n].to_vec();
                        f = frame(f[0], &body);
                    }
                }
                4 => {
                    // extra bytes, length adjusted
                    if hdr <= f.len() {
                        let mut body = f[hdr..].to_vec();
                        for _ in 0..self.r.range(1, 4) {
                            body.push(self.r.next() as u8);
                        }
                        f = frame(f[0], &body);
                    }
                }
                5 => {
                    let i = self.r.us(f.len() + 1);
                    f.insert(i, self.r.next() as u8);
                }
                6 => {
                    let i = self.r.us(f.len());
                    f.remove(i);
                }
                _ => {
                    // header flags
                    f[0] ^= 1 << self.r.below(4);
                }
            }
            if f.is_empty() {
                return;
            }
        }
        self.tx.extend(f);
    }

    fn maybe_feed(&mut self, w: &mut World) -> Vec<Viol> {
        if self.r.pct(self.sh.late) {
            return vec![];
        }
        self.feed(w)
    }

    /// the network delivers a prefix of what was written
    fn feed(&mut self, w: &mut World) -> Vec<Viol> {
        if self.tx.is_empty() {
            return vec![];
        }
        let n = match self.sh.frag {
            0 => self.tx.len(),
            _ => {
                if self.r.pct(60) {
                    self.tx.len()
                } else {
                    self.r.range(1, self.tx.len() as u64) as usize
                }
            }
        };
        let b: Vec<u8> = self.tx.drain(..n).collect();
        let mut cuts = vec![];
        match self.sh.frag {
            1 => {
                let mut left = b.len();
                while left > 0 && self.r.pct(70) {
                    let x = self.r.range(0, (left as u64).min(7)) as usize;
                    cuts.push(x);
                    left -= x;
                }
            }
            2 if self.r.pct(70) && b.len() < 3000 => cuts = vec![1; b.len()],
            2 => {
                // the first bytes one by one, then large pieces
                cuts = vec![1; b.len().min(8)];
                let mut left = b.len() - cuts.len();
                while left > 0 && self.r.pct(70) {
                    let x = self.r.range(1, left as u64) as usize;
                    cuts.push(x);
                    left -= x;
                }
            }
            _ => {}
        }
        w.stats.hit("network: delivery");
        if b.len() > 16386 {
            w.stats.hit("network: delivery of more than 16 KiB");
        }
        if !cuts.is_empty() {
            w.stats.hit("fault: fragmented delivery");
        }
        self.exec(w, Step::Feed(b, cuts))
    }

    // ------------------------------------------------------------------ calls MQTT does not allow here

    fn illegal(&mut self, w: &mut World) -> Vec<Viol> {
        w.stats.hit("fault: application sends out of turn");
        let free = {
            let i = self.pid_any(w);
            if self.r.pct(20) {
                w.m.ids.iter().find(|x| *x.1 == Own::App).map(|x| *x.0).unwrap_or(i)
            } else {
                i
            }
        };
        let v5 = if self.r.pct(85) { self.v5 } else { !self.v5 };
        let keep = self.v5;
        self.v5 = v5;
        let pk = match self.r.below(18) {
            0 => self.connect(v5),
            1 => {
                let c = self.r.bool();
                self.connack(c, w)
            }
            2..=4 => {
                let mut p = self.publish(w);
                if p.qos > 0 {
                    p.pid = free;
                }
                Pk::Publish(p)
            }
            5 => ack(4, free),
            6 => ack(5, free),
            7 => {
                let ks: Vec<u32> = w.m.ids.keys().copied().collect();
                let i = if self.r.bool() || ks.is_empty() { free } else { *self.r.pick(&ks) };
                ack(6, i)
            }
            8 => ack(7, free),
            9 => self.sub(free),
            10 => Pk::Suback { pid: free, codes: vec![0], props: vec![] },
            11 => Pk::Unsuback { pid: free, codes: if v5 { vec![0] } else { vec![] }, props: vec![] },
            12 => Pk::Pingreq,
            13 => Pk::Pingresp,
            14 => {
                if self.r.pct(70) {
                    self.v5 = keep;
                    return vec![];
                }
                self.disconnect()
            }
            15 if v5 => self.auth(),
            16 => {
                // held identifier, bad alias or oversize
                let mut p = self.publish(w);
                if v5 {
                    p.props.retain(|x| x.0 != 35);
                    let a = *self.r.pick(&[1u16, 2, 7, 65535]);
                    p.props.push((35, PV::W(a)));
                    if self.r.bool() {
                        p.topic = String::new();
                    }
                }
                if p.qos > 0 {
                    p.pid = match self.newid(w) {
                        Ok(i) => i,
                        Err(v) => {
                            self.v5 = keep;
                            return v;
                        }
                    };
                }
                Pk::Publish(p)
            }
            _ => {
                let mut p = self.publish(w);
                if let Some(m) = w.m.mps_send {
                    let n = m as usize + 1 + self.r.us(4);
                    self.pad_to(&mut p, n.min(400), v5, w.cfg.w);
                }
                if p.qos > 0 {
                    p.pid = match self.newid(w) {
                        Ok(i) => i,
                        Err(v) => {
                            self.v5 = keep;
                            return v;
                        }
                    };
                }
                Pk::Publish(p)
            }
        };
        self.v5 = keep;
        let checked = self.r.pct(self.sh.checked);
        self.exec(w, Step::Send { pk, v5, checked })
    }
}
