//! The "pair" world: a client object and a server object, both real code, joined by a simulated transport that
//! fragments, delays, and dies at arbitrary points, each driven by an application stub.  The oracle is
//! end-to-end: a ledger of uniquely marked messages, no complaint by either side about the other, and idleness
//! once faults stop.

use crate::ep::*;
use crate::model::*;
use crate::rng::Rng;
use crate::solo::Stats;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq)]
pub struct Side {
    pub any: bool,
    pub autopub: bool,
    pub autoping: bool,
    pub automap: bool,
    pub autorepl: bool,
    pub offline: bool,
    /// announced: Receive Maximum, Topic Alias Maximum, Maximum Packet Size (0 = property absent)
    pub rm: u16,
    pub tam: u16,
    pub mps: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct PCfg {
    pub w: usize,
    pub v5: bool,
    pub und: bool,
    /// packets go to the wire through vectored writes
    pub vec: bool,
    pub persistent: bool,
    pub ka: u16,
    pub pingresp: u64,
    /// workload only once the client has seen CONNACK
    pub strict: bool,
    pub s: [Side; 2],
}

#[derive(Clone, Debug, PartialEq)]
pub enum PStep {
    Connect,
    Deliver(usize, usize),
    Lose(usize, usize),
    Told(usize),
    Pub { side: usize, qos: u8, topic: u8, len: usize, alias: u8, retain: bool },
    Sub(usize, bool),
    Ping,
    Disc(usize),
    /// the application answers the oldest packet it owes an answer; the flag refuses it where MQTT allows
    Ack(usize, bool),
    Advance(u64),
    /// the process of one side dies; the flag says whether its exported session survives
    Crash(usize, bool),
    /// the application cancels one of its own stored QoS 1 publishes (to cancel a QoS 2 one that may have been
    /// received would leave the receiver waiting)
    Erase(usize),
}

impl PCfg {
    pub fn text(&self) -> String {
        let s = |x: &Side| {
            format!(
                "{}{}{}{}{}{} {} {} {}",
                x.any as u8, x.autopub as u8, x.autoping as u8, x.automap as u8, x.autorepl as u8, x.offline as u8, x.rm, x.tam, x.mps
            )
        };
        format!(
            "cfg {} {} {} {} {} {} {} {} {}",
            self.w, self.v5 as u8, self.und as u8 + 2 * self.vec as u8, self.persistent as u8, self.ka, self.pingresp, self.strict as u8, s(&self.s[0]), s(&self.s[1])
        )
    }
    pub fn parse(t: &str) -> Option<PCfg> {
        let f: Vec<&str> = t.split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok());
        let side = |i: usize| {
            let b: Vec<bool> = f.get(i)?.chars().map(|c| c == '1').collect();
            if b.len() != 6 {
                return None;
            }
            Some(Side { any: b[0], autopub: b[1], autoping: b[2], automap: b[3], autorepl: b[4], offline: b[5], rm: n(i + 1)? as u16, tam: n(i + 2)? as u16, mps: n(i + 3)? as u32 })
        };
        if f.first() != Some(&"cfg") {
            return None;
        }
        Some(PCfg {
            w: n(1)? as usize,
            v5: n(2)? == 1,
            und: n(3)? & 1 == 1,
            vec: n(3)? & 2 == 2,
            persistent: n(4)? == 1,
            ka: n(5)? as u16,
            pingresp: n(6)?,
            strict: n(7)? == 1,
            s: [side(8)?, side(12)?],
        })
    }
}
impl PStep {
    pub fn text(&self) -> String {
        match self {
            PStep::Connect => "connect".into(),
            PStep::Deliver(s, n) => format!("deliver {s} {n}"),
            PStep::Lose(a, b) => format!("lose {a} {b}"),
            PStep::Told(s) => format!("told {s}"),
            PStep::Pub { side, qos, topic, len, alias, retain } => format!("pub {side} {qos} {topic} {len} {alias} {}", *retain as u8),
            PStep::Sub(s, u) => format!("sub {s} {}", *u as u8),
            PStep::Ping => "ping".into(),
            PStep::Disc(s) => format!("disc {s}"),
            PStep::Ack(s, r) => format!("ack {s} {}", *r as u8),
            PStep::Advance(n) => format!("advance {n}"),
            PStep::Crash(s, d) => format!("crash {s} {}", *d as u8),
            PStep::Erase(s) => format!("erase {s}"),
        }
    }
    pub fn parse(t: &str) -> Option<PStep> {
        let f: Vec<&str> = t.split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok());
        let side = |i: usize| n(i).map(|x| (x & 1) as usize);
        Some(match *f.first()? {
            "connect" => PStep::Connect,
            "deliver" => PStep::Deliver(side(1)?, n(2)? as usize),
            "lose" => PStep::Lose(n(1)? as usize, n(2)? as usize),
            "told" => PStep::Told(side(1)?),
            "pub" => PStep::Pub { side: side(1)?, qos: n(2)? as u8, topic: n(3)? as u8, len: n(4)? as usize, alias: n(5)? as u8, retain: n(6)? == 1 },
            "sub" => PStep::Sub(side(1)?, n(2)? == 1),
            "ping" => PStep::Ping,
            "disc" => PStep::Disc(side(1)?),
            "ack" => PStep::Ack(side(1)?, n(2)? == 1),
            "advance" => PStep::Advance(n(1)?),
            "crash" => PStep::Crash(side(1)?, n(2)? == 1),
            "erase" => PStep::Erase(side(1)?),
            _ => return None,
        })
    }
}

const TOPICS: [&str; 8] = [
    "t", "t/1", "T/1", "sensor/temperature/room", "t/1/", "q", "\u{e9}tage/\u{5ba4}/\u{1f321}",
    "a/very/long/topic/name/that/alone/takes/more/than/the/one/hundred/and/twenty/seven/bytes/a/one-byte/remaining/length/can/express/0123456789",
];

struct Msg {
    from: usize,
    qos: u8,
    topic: String,
    retain: bool,
    len: usize,
    pid: u32,
    got: u32,
    /// transport losses so far when it was accepted
    epoch: u32,
    /// no delivery promise any more (session gone, cancelled, dropped as oversize on resume)
    excused: bool,
    /// the receiving application refused it: a retransmission counts as a new message
    refused: bool,
    /// size of the form that is kept for retransmission
    size: usize,
}

struct Node {
    ep: Box<dyn Ep>,
    /// bytes on their way to this node
    inbox: VecDeque<u8>,
    /// the transport is open as far as this node knows
    open: bool,
    /// the node has asked for the transport to be closed, or was told by its peer: it neither reads nor writes
    done: bool,
    connected: bool,
    deadline: [Option<u64>; 3],
    /// answers the application owes
    owed: VecDeque<Pk>,
    /// QoS 2 exchanges where PUBREC arrived and PUBREL has not been sent
    need_rel: BTreeSet<u32>,
    ids: BTreeSet<u32>,
    bound: BTreeMap<u8, u8>,
    /// ids owned by its own subscribe/unsubscribe requests
    opts: Vec<Call>,
}

pub struct Pair {
    cfg: PCfg,
    n: [Node; 2],
    msgs: BTreeMap<u32, Msg>,
    seq: u32,
    now: u64,
    alive: bool,
    epoch: u32,
    srv_session: bool,
    /// the server lost its session and does not know yet that the client has been told so
    srv_lost: bool,
    must_clean: bool,
    cli_session: bool,
    /// the session outlives the current (or last) network connection
    lasting: bool,
    pub viol: Vec<Viol>,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    deliveries: u64,
}

fn role(c: &PCfg, s: usize) -> Role {
    match (c.s[s].any, s) {
        (true, _) => Role::Any,
        (_, 0) => Role::Client,
        _ => Role::Server,
    }
}
fn ver(c: &PCfg, s: usize) -> Ver {
    if s == 1 && c.und {
        Ver::Und
    } else if c.v5 {
        Ver::V5
    } else {
        Ver::V3
    }
}
const NAME: [&str; 2] = ["client", "server"];

impl Pair {
    pub fn new(cfg: PCfg, trace: bool) -> Pair {
        crate::libpk::VECTORED.with(|v| v.set(cfg.vec));
        let node = |s: usize| {
            let x = &cfg.s[s];
            let mut opts = vec![
                Call::Opt(O_AUTOPUB, x.autopub),
                Call::Opt(O_AUTOPING, x.autoping),
                Call::Opt(O_AUTOMAP, x.automap),
                Call::Opt(O_AUTOREPL, x.autorepl),
            ];
            if x.offline && cfg.persistent {
                opts.push(Call::Opt(O_OFFLINE, true));
            }
            if s == 0 {
                opts.push(Call::PingrespTo(cfg.pingresp));
            }
            Node {
                ep: make(role(&cfg, s), cfg.w, ver(&cfg, s)),
                inbox: VecDeque::new(),
                open: false,
                done: false,
                connected: false,
                deadline: [None; 3],
                owed: VecDeque::new(),
                need_rel: BTreeSet::new(),
                ids: BTreeSet::new(),
                bound: BTreeMap::new(),
                opts,
            }
        };
        let cfg_persistent = cfg.persistent;
        let mut p = Pair {
            n: [node(0), node(1)],
            cfg,
            msgs: BTreeMap::new(),
            seq: 0,
            now: 0,
            alive: false,
            epoch: 0,
            srv_session: false,
            srv_lost: false,
            must_clean: false,
            cli_session: false,
            lasting: cfg_persistent,
            viol: vec![],
            stats: Stats::default(),
            states: BTreeSet::new(),
            hash: 0xcbf29ce484222325,
            trace: if trace { Some(vec![]) } else { None },
            deliveries: 0,
        };
        for s in 0..2 {
            for o in p.n[s].opts.clone() {
                p.call(s, o);
            }
        }
        p
    }

    fn tr(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
    fn bad(&mut self, m: u32, t: String) {
        self.viol.push((m | C01, t));
    }

    fn call(&mut self, s: usize, c: Call) -> Out {
        self.stats.calls += 1;
        let out = self.n[s].ep.call(&c);
        let line = format!("{}: {} -> {}{}", NAME[s], short(&c), showevs(&out.evs), out.panic.as_ref().map(|p| format!(" PANIC {p}")).unwrap_or_default());
        for x in line.as_bytes() {
            self.hash = (self.hash ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.tr(|| format!("    {line}"));
        if let Some(p) = &out.panic {
            self.bad(ALL, format!("{} panicked: {p}", NAME[s]));
            return out;
        }
        if let Call::Fire(k) = &c {
            self.n[s].deadline[*k as usize] = None;
        }
        let recv = matches!(c, Call::Recv(..));
        let resume = recv && s == 0 || matches!(c, Call::Send { pk: Pk::Connack { .. }, .. });
        for e in &out.evs {
            match e {
                Ev::Send { bytes, .. } => {
                    if self.alive && self.n[s].open && !self.n[s].done {
                        self.n[1 - s].inbox.extend(bytes.iter());
                    } else {
                        self.stats.hit("fault: bytes written to a dead transport");
                    }
                }
                Ev::Reset(k, d) => self.n[s].deadline[*k as usize] = Some(self.now.saturating_add(*d)),
                Ev::Cancel(k) => self.n[s].deadline[*k as usize] = None,
                Ev::Released(i) => {
                    self.n[s].ids.remove(i);
                    self.n[s].need_rel.remove(i);
                    if resume {
                        // a stored packet that no longer fits is dropped with its identifier
                        let lim = self.cfg.s[1 - s].mps;
                        if self.cfg.v5 && lim > 0 {
                            for m in self.msgs.values_mut() {
                                if m.from == s && m.pid == *i && m.size > lim as usize {
                                    m.excused = true;
                                }
                            }
                        }
                    }
                }
                Ev::Error(x) if recv => self.bad(0, format!("the {} reports {x} about its peer", NAME[s])),
                Ev::Close => self.n[s].done = true,
                Ev::Error(_) => {}
                Ev::Recv { .. } => {}
            }
        }
        for e in out.evs.clone() {
            if let Ev::Recv { pk, topic, v5, bytes } = e {
                if v5 != self.cfg.v5 {
                    self.bad(0, format!("the {} was given a packet of the other protocol version", NAME[s]));
                }
                match pk {
                    Some(p) => self.received(s, p, topic),
                    None => self.bad(0, format!("the {} was given a packet the reference codec does not read: {}", NAME[s], hex(&bytes))),
                }
            }
        }
        out
    }

    fn received(&mut self, s: usize, p: Pk, topic: Option<String>) {
        if s == 1 {
            // the client only sends anything else once it has seen CONNACK
            self.srv_lost &= matches!(p, Pk::Connect(..));
        }
        let auto = self.cfg.s[s].autopub;
        match p {
            Pk::Publish(p) => {
                self.deliveries += 1;
                let k = if p.payload.len() >= 4 { u32::from_be_bytes([p.payload[0], p.payload[1], p.payload[2], p.payload[3]]) } else { u32::MAX };
                let ok = match self.msgs.get_mut(&k) {
                    None => Some("was never sent".to_string()),
                    Some(m) => {
                        m.got += 1;
                        if m.from == s {
                            Some("was sent by itself".into())
                        } else if topic.as_deref() != Some(m.topic.as_str()) {
                            Some(format!("was sent to topic {:?}", m.topic))
                        } else if m.qos != p.qos || m.retain != p.retain {
                            Some(format!("was sent with QoS {} retain {}", m.qos, m.retain))
                        } else if p.payload.len() != m.len || p.payload != payload(k, p.payload.len()) {
                            Some("has another payload".into())
                        } else if m.got > 1 && m.qos != 1 && !m.refused {
                            Some(format!("had been delivered before ({} times now)", m.got))
                        } else if m.got > 1 && m.epoch == self.epoch {
                            Some(format!("was delivered {} times although no transport was lost", m.got))
                        } else {
                            None
                        }
                    }
                };
                if let Some(x) = ok {
                    self.bad(C07 | C13, format!("the {} received message {k} (QoS {} id {} topic {topic:?} len {}), which {x}", NAME[s], p.qos, p.pid, p.payload.len()));
                }
                if !auto && p.qos > 0 {
                    self.n[s].owed.push_back(ack(if p.qos == 1 { 4 } else { 5 }, p.pid));
                }
            }
            Pk::Ack { k: 5, pid, rc, .. } => {
                if !auto && (rc.unwrap_or(0) < 0x80) {
                    self.n[s].need_rel.insert(pid);
                    self.n[s].owed.push_back(ack(6, pid));
                }
            }
            Pk::Ack { k: 6, pid, .. } => {
                if !auto {
                    self.n[s].owed.push_back(ack(7, pid));
                }
            }
            Pk::Pingreq => {
                if !self.cfg.s[s].autoping {
                    self.n[s].owed.push_back(Pk::Pingresp);
                }
            }
            Pk::Connect(c) => {
                if s == 0 {
                    self.bad(0, "the client was given a CONNECT".into());
                    return;
                }
                let sp = self.srv_session && !self.srv_lost && !c.clean;
                if !sp {
                    self.new_session(1);
                }
                // a v3.1.1 clean session ends with its connection
                self.srv_session = self.cfg.persistent && (self.cfg.v5 || !c.clean);
                self.n[1].connected = true;
                let props = self.limits(1);
                self.call(1, Call::Send { pk: Pk::Connack { sp, rc: 0, props }, v5: self.cfg.v5, checked: false });
                self.again(1);
            }
            Pk::Connack { sp, rc, .. } => {
                if rc != 0 {
                    self.bad(0, "the server refused".into());
                }
                if !sp {
                    self.new_session(0);
                }
                self.n[0].connected = true;
                self.must_clean = false;
                self.cli_session = self.lasting;
                self.again(0);
            }
            Pk::Subscribe { pid, entries, .. } => {
                let l: &[u8] = if self.cfg.v5 { RC_SUBACK } else { &[0, 1, 2, 0x80] };
                let codes = (0..entries.len()).map(|i| l[(pid as usize + i + self.seq as usize) % l.len()]).collect();
                self.n[s].owed.push_back(Pk::Suback { pid, codes, props: vec![] });
            }
            Pk::Unsubscribe { pid, topics, .. } => {
                let codes = if self.cfg.v5 { (0..topics.len()).map(|i| RC_UNSUBACK[(pid as usize + i) % RC_UNSUBACK.len()]).collect() } else { vec![] };
                self.n[s].owed.push_back(Pk::Unsuback { pid, codes, props: vec![] });
            }
            Pk::Disconnect { .. } => self.n[s].done = true,
            _ => {}
        }
    }

    /// the application resumes what it had not finished itself
    fn again(&mut self, s: usize) {
        for i in self.n[s].need_rel.clone() {
            if !self.n[s].owed.contains(&ack(6, i)) {
                self.n[s].owed.push_back(ack(6, i));
            }
        }
    }

    /// side s starts a session from nothing: what it had sent before carries no promise any more
    fn new_session(&mut self, s: usize) {
        let e = self.epoch;
        for m in self.msgs.values_mut() {
            // the peer's messages: this side no longer knows which it has seen, and the peer (told so by
            // session present = 0, or having asked for it) forgets them too
            if m.epoch < e || m.from == s {
                m.excused = true;
            }
        }
        self.n[s].need_rel.clear();
        self.n[s].ids.clear();
        self.n[s].owed.retain(|p| !matches!(p, Pk::Ack { .. }));
    }

    fn limits(&self, s: usize) -> Props {
        let x = &self.cfg.s[s];
        let mut p = vec![];
        if !self.cfg.v5 {
            return p;
        }
        if x.rm > 0 {
            p.push((33, PV::W(x.rm)));
        }
        if x.tam > 0 {
            p.push((34, PV::W(x.tam)));
        }
        if x.mps > 0 {
            p.push((39, PV::D(x.mps)));
        }
        p
    }

    fn told(&mut self, s: usize) {
        self.n[s].open = false;
        self.n[s].done = false;
        self.n[s].connected = false;
        self.n[s].owed.clear();
        self.n[s].bound.clear();
        self.n[s].inbox.clear();
        self.call(s, Call::Close);
        if !self.lasting {
            for m in self.msgs.values_mut() {
                m.excused = true;
            }
            self.n[s].need_rel.clear();
        }
        self.alive = false;
    }

    fn lose(&mut self, a: usize, b: usize) {
        self.alive = false;
        self.epoch += 1;
        self.stats.hit("fault: transport loss");
        for (s, k) in [(0, a), (1, b)] {
            if self.n[s].inbox.len() > k {
                self.stats.hit("fault: bytes in flight discarded");
            }
            self.n[s].inbox.truncate(k);
        }
    }

    /// PUBLISH exchanges of side s that may still be incomplete
    fn open_pubs(&self, s: usize) -> usize {
        let n = &self.n[s];
        self.msgs.values().filter(|m| m.from == s && m.qos > 0 && n.ids.contains(&m.pid)).map(|m| m.pid).collect::<BTreeSet<_>>().len()
    }

    pub fn step(&mut self, st: &PStep) {
        if !self.viol.is_empty() {
            return;
        }
        self.tr(|| format!("  {}", st.text()));
        self.stats.steps += 1;
        let v5 = self.cfg.v5;
        match st {
            PStep::Connect => {
                if self.alive || self.n[0].open || self.n[1].open {
                    return;
                }
                self.alive = true;
                self.n[0].open = true;
                self.n[1].open = true;
                self.n[0].inbox.clear();
                self.n[1].inbox.clear();
                let clean = !self.cfg.persistent || self.must_clean;
                self.lasting = self.cfg.persistent && (v5 || !clean);
                let mut props = self.limits(0);
                if v5 && self.cfg.persistent {
                    props.push((17, PV::D(1000)));
                }
                if clean {
                    self.new_session(0);
                    self.cli_session = false;
                }
                let will = if self.epoch % 4 == 3 { Some(Will { topic: "w".into(), payload: vec![1; 3], qos: (self.seq % 3) as u8, retain: self.seq & 1 == 0, props: vec![] }) } else { None };
                let user = if self.epoch % 5 == 2 { Some("user".into()) } else { None };
                let pk = Pk::Connect(Connect { level: 4 + v5 as u8, clean, ka: self.cfg.ka, cid: "cid".into(), will, user, pass: None, props });
                self.call(0, Call::Send { pk, v5, checked: false });
                if self.epoch > 0 && !clean {
                    self.stats.hit("fault: session resumed on a new transport");
                }
            }
            PStep::Deliver(s, k) => {
                let s = *s;
                if !self.n[s].open || self.n[s].done || self.n[s].inbox.is_empty() {
                    return;
                }
                let k = (*k).clamp(1, self.n[s].inbox.len());
                if k < self.n[s].inbox.len() {
                    self.stats.hit("fault: delivery fragmented");
                }
                let chunk: Vec<u8> = self.n[s].inbox.drain(..k).collect();
                let mut pos = 0;
                while pos < chunk.len() {
                    let o = self.call(s, Call::Recv(chunk.clone(), pos));
                    if !self.viol.is_empty() || self.n[s].done {
                        return;
                    }
                    match o.ret {
                        Ret::Consumed(c) if c > 0 => pos += c,
                        _ => {
                            self.bad(C09, format!("the {} does not take the bytes it is given", NAME[s]));
                            return;
                        }
                    }
                }
            }
            PStep::Lose(a, b) => {
                if self.alive {
                    self.lose(*a, *b);
                }
            }
            PStep::Told(s) => {
                let s = *s;
                // told when the transport is dead or it (or its peer) hung up
                if !self.n[s].open || (self.alive && !self.n[s].done && !self.n[1 - s].done && self.n[1 - s].open) {
                    return;
                }
                if self.alive && self.n[1 - s].open && !self.n[s].done && !self.n[s].inbox.is_empty() {
                    // the peer hung up in order: what it had written arrives first
                    return;
                }
                if self.alive {
                    self.epoch += 1;
                }
                self.told(s);
            }
            PStep::Pub { side, qos, topic, len, alias, retain } => self.publish(*side, *qos, *topic, *len, *alias, *retain),
            PStep::Sub(s, un) => {
                if *s != 0 || !self.may_send(0) {
                    return;
                }
                let Ret::Id(Ok(pid)) = self.call(0, Call::Acquire).ret else { return };
                self.n[0].ids.insert(pid);
                let n = 1 + (self.seq as usize + pid as usize) % 3;
                let f = ["t/#", "+/b", "\u{5ba4}/#"];
                let pk = if *un {
                    Pk::Unsubscribe { pid, topics: f[..n].iter().map(|x| x.to_string()).collect(), props: vec![] }
                } else {
                    Pk::Subscribe { pid, entries: f[..n].iter().enumerate().map(|(i, x)| (x.to_string(), ((pid as usize + i) % 3) as u8)).collect(), props: vec![] }
                };
                self.call(0, Call::Send { pk, v5, checked: false });
            }
            PStep::Ping => {
                if self.may_send(0) {
                    self.call(0, Call::Send { pk: Pk::Pingreq, v5, checked: false });
                }
            }
            PStep::Disc(s) => {
                if !self.may_send(*s) || (*s == 1 && !v5) {
                    return;
                }
                self.stats.hit("fault: graceful disconnect in mid-traffic");
                self.n[*s].owed.clear();
                let rc = if v5 && self.seq % 3 > 0 { Some(RC_DISC[(self.seq + self.epoch) as usize % RC_DISC.len()]) } else { None };
                self.call(*s, Call::Send { pk: Pk::Disconnect { rc, props: None }, v5, checked: false });
                self.n[*s].done = true;
            }
            PStep::Ack(s, refuse) => self.answer(*s, *refuse),
            PStep::Advance(ms) => self.advance(*ms),
            PStep::Crash(s, durable) => self.crash(*s, *durable),
            PStep::Erase(s) => {
                let s = *s;
                let open: Vec<u32> = self.msgs.values().filter(|m| m.from == s && m.qos == 2 && !m.excused).map(|m| m.pid).collect();
                let Some(i) = self.msgs.values().rev().find(|m| m.from == s && m.qos == 1 && m.got == 0 && !m.excused && self.n[s].ids.contains(&m.pid) && !open.contains(&m.pid)).map(|m| m.pid) else { return };
                // a message under way may still arrive, one in the store will not be retransmitted
                if self.n[0].open || self.n[1].open {
                    return;
                }
                self.stats.hit("stored publish cancelled by the application");
                for m in self.msgs.values_mut() {
                    if m.from == s && m.pid == i {
                        m.excused = true;
                    }
                }
                self.call(s, Call::Erase(i));
            }
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for s in 0..2 {
            let n = &self.n[s];
            (n.open, n.done, n.connected, n.inbox.len().min(9), n.owed.len().min(3), n.need_rel.len().min(2), self.open_pubs(s).min(4), self.cfg.s[s].autopub).hash(&mut h);
            (n.inbox.front().map(|x| x >> 4), n.ids.len().min(5)).hash(&mut h);
        }
        (self.alive, self.cfg.v5, self.cfg.persistent, self.epoch.min(3)).hash(&mut h);
        self.states.insert(h.finish());
    }

    /// the application may issue new work
    fn may_send(&self, s: usize) -> bool {
        let up = self.n[s].open && !self.n[s].done && self.n[s].connected;
        up && (!self.cfg.strict || self.n[0].connected || !self.alive)
    }

    fn publish(&mut self, s: usize, qos: u8, t: u8, len: usize, alias: u8, retain: bool) {
        let v5 = self.cfg.v5;
        let up = self.may_send(s);
        let offline = !up && !self.cfg.strict && self.cfg.persistent && qos > 0 && !self.n[s].done && !self.n[s].open && self.cfg.s[s].offline && if s == 0 { self.cli_session && !self.must_clean } else { self.srv_session };
        if !up && !offline {
            return;
        }
        // keep what will be retransmitted within the peer's Receive Maximum
        let lim = if v5 { self.cfg.s[1 - s].rm } else { 0 };
        if qos > 0 && lim > 0 && offline && self.open_pubs(s) >= lim as usize {
            return;
        }
        let k = self.seq;
        self.seq += 1;
        let t = t % TOPICS.len() as u8;
        let mut props = if v5 { msgprops(k) } else { vec![] };
        let mut topic = TOPICS[t as usize].to_string();
        if v5 && alias > 0 && up && !self.cfg.s[s].automap && (alias as u16) <= self.cfg.s[1 - s].tam {
            props.push((35, PV::W(alias as u16)));
            if self.n[s].bound.get(&alias) == Some(&t) {
                topic.clear();
            }
        }
        let mut pid = 0;
        if qos == 2 && up && v5 && self.cfg.s[1 - s].mps > 0 {
            // a QoS 2 message that only fits with an alias could be received, dropped on resume (its full form
            // no longer fits), and leave the receiver with an open exchange: MQTT's own gap
            let full = Publish { topic: TOPICS[t as usize].into(), qos, dup: false, retain, pid: 1, payload: payload(k, len), props: props.clone() };
            if Pk::Publish(full).encode(v5, self.cfg.w).len() > self.cfg.s[1 - s].mps as usize {
                return;
            }
        }
        if qos > 0 {
            let Ret::Id(Ok(i)) = self.call(s, Call::Acquire).ret else { return };
            pid = i;
            if !self.n[s].ids.insert(i) {
                self.bad(C08, format!("the {} was handed identifier {i} twice", NAME[s]));
            }
        }
        let p = Publish { topic, qos, dup: false, retain, pid, payload: payload(k, len), props };
        let mut stored = p.without_alias();
        stored.topic = TOPICS[t as usize].into();
        let size = Pk::Publish(stored).encode(v5, self.cfg.w).len();
        // in the ledger before the call: what it sends may not come back at once, but the entry must exist
        self.msgs.insert(k, Msg { from: s, qos, topic: TOPICS[t as usize].into(), retain, len: p.payload.len(), pid, got: 0, epoch: self.epoch, excused: false, refused: false, size });
        let out = self.call(s, Call::Send { pk: Pk::Publish(p.clone()), v5, checked: false });
        let sent = out.evs.iter().any(|e| matches!(e, Ev::Send { .. }));
        let err = out.evs.iter().any(|e| matches!(e, Ev::Error(_)));
        if err && sent {
            self.bad(C11, "a refused PUBLISH was requested for sending".into());
        }
        if err || out.ret == Ret::NotMade {
            self.msgs.remove(&k);
            return;
        }
        if !self.alive || qos == 0 {
            // written to a dead transport: it only exists in the store
            if qos == 0 {
                self.msgs.get_mut(&k).unwrap().excused = true;
            }
            self.msgs.get_mut(&k).unwrap().epoch = self.epoch.saturating_sub((!self.alive) as u32);
        }
        if sent && self.alive {
            if let Some(a) = p.alias() {
                // the binding holds once this PUBLISH has been written
                self.n[s].bound.insert(a as u8, t);
            }
        } else if p.alias().is_some() {
            self.n[s].bound.clear();
        }
        if !self.lasting && !self.alive {
            self.msgs.get_mut(&k).unwrap().excused = true;
        }
    }

    fn answer(&mut self, s: usize, refuse: bool) {
        if !self.n[s].open || self.n[s].done || !self.n[s].connected {
            return;
        }
        let Some(mut p) = self.n[s].owed.pop_front() else { return };
        let v5 = self.cfg.v5;
        let vary = self.seq + self.now as u32;
        if let Pk::Ack { k, pid, rc, props } = &mut p {
            if v5 {
                // success in all its spellings
                match (vary + *pid) % 6 {
                    0 => *rc = Some(0),
                    1 if *k < 6 => *rc = Some(0x10),
                    2 => {
                        *rc = Some(0);
                        *props = Some(vec![]);
                    }
                    3 => {
                        *rc = Some(0);
                        *props = Some(vec![(38, PV::P("k".into(), "v".into())), (31, PV::S("ok".into()))]);
                    }
                    _ => {}
                }
            }
            if *k == 6 && !self.n[s].need_rel.remove(pid) {
                return;
            }
            if refuse && v5 && (*k == 4 || *k == 5) {
                *rc = Some(RC_PUBACK[2 + (self.seq as usize + *pid as usize) % (RC_PUBACK.len() - 2)]);
                self.stats.hit("message refused by the receiving application");
                let i = *pid;
                // the exchange with that identifier in progress
                if let Some(m) = self.msgs.values_mut().rev().find(|m| m.from == 1 - s && m.pid == i) {
                    m.refused = true;
                }
            }
        }
        let o = self.call(s, Call::Send { pk: p.clone(), v5, checked: false });
        if o.evs.iter().any(|e| matches!(e, Ev::Error(_))) && self.viol.is_empty() {
            self.bad(C11, format!("the {} refuses to send the answer {}", NAME[s], showpk(&p)));
        }
    }

    fn advance(&mut self, ms: u64) {
        let until = self.now.saturating_add(ms);
        for _ in 0..8 {
            if !self.viol.is_empty() {
                return;
            }
            let next = (0..2).flat_map(|s| (0..3).map(move |k| (s, k))).filter_map(|(s, k)| self.n[s].deadline[k].map(|d| (d, s, k))).min();
            match next {
                Some((d, s, k)) if d <= until => {
                    self.stats.sim_ms += d.saturating_sub(self.now);
                    self.now = self.now.max(d);
                    self.stats.hit(match k {
                        0 => "timer: PINGREQ send fired",
                        1 => "timer: keep-alive receive fired",
                        _ => "timer: PINGRESP timeout fired",
                    });
                    self.call(s, Call::Fire(k as u8));
                }
                _ => break,
            }
        }
        if self.now < until {
            self.stats.sim_ms += until - self.now;
            self.now = until;
        }
    }

    fn crash(&mut self, s: usize, durable: bool) {
        if !self.cfg.persistent {
            return;
        }
        let durable = durable && self.lasting;
        self.stats.hit(if durable { "fault: process crash, session restored" } else { "fault: process crash, session lost" });
        if self.alive {
            let keep = self.n[1 - s].inbox.len();
            if s == 0 {
                self.lose(0, keep);
            } else {
                self.lose(keep, 0);
            }
        }
        let (Ok(stored), Ok(handled)) = (self.n[s].ep.stored(), self.n[s].ep.handled()) else { return };
        // the version is part of the session the application remembers
        let v = if durable && self.n[s].ep.version() != Ver::Und { if self.cfg.v5 { Ver::V5 } else { Ver::V3 } } else { ver(&self.cfg, s) };
        self.n[s].ep = make(role(&self.cfg, s), self.cfg.w, v);
        let n = &mut self.n[s];
        n.open = false;
        n.done = false;
        n.connected = false;
        n.inbox.clear();
        n.deadline = [None; 3];
        n.owed.clear();
        n.bound.clear();
        n.ids.clear();
        for o in self.n[s].opts.clone() {
            self.call(s, o);
        }
        if durable {
            let v5 = self.cfg.v5;
            for b in &stored {
                if let Ok(p) = decode(b, v5, self.cfg.w) {
                    match p {
                        Pk::Publish(p) => {
                            self.n[s].ids.insert(p.pid);
                        }
                        Pk::Ack { pid, .. } => {
                            self.n[s].ids.insert(pid);
                        }
                        _ => {}
                    }
                }
            }
            let o = self.call(s, Call::RestorePackets(stored, v5));
            if let Ret::Unit(Err(x)) = o.ret {
                self.bad(C16, x);
            }
            self.call(s, Call::RestoreHandled(handled.into_iter().collect()));
            for i in self.n[s].need_rel.clone() {
                if !self.n[s].ids.contains(&i) {
                    // an exchange between PUBREC and PUBREL is the application's to remember
                    let o = self.call(s, Call::Register(i));
                    if o.ret != Ret::Unit(Ok(())) {
                        self.bad(C16 | C08, format!("identifier {i} cannot be registered after a restore"));
                    }
                    self.n[s].ids.insert(i);
                }
            }
        } else {
            self.n[s].need_rel.clear();
            for m in self.msgs.values_mut() {
                m.excused = true;
            }
            if s == 0 {
                self.must_clean = true;
                self.cli_session = false;
            } else {
                self.srv_session = false;
                self.srv_lost = true;
            }
        }
    }

    /// Faults stop: reconnect if need be, deliver everything, let the applications answer; then both must be idle.
    pub fn quiesce(&mut self) {
        self.tr(|| "  -- faults stop --".into());
        let mut budget = 400 + 40 * self.msgs.len();
        loop {
            if !self.viol.is_empty() {
                return;
            }
            if budget == 0 {
                self.bad(0, "the exchange does not terminate once faults stop".into());
                return;
            }
            budget -= 1;
            if self.n.iter().any(|n| n.open && n.done) || (!self.alive && self.n.iter().any(|n| n.open)) {
                // hang up in order: drain what was written, then tell
                for s in 0..2 {
                    if self.n[s].open && !self.n[s].done && !self.n[s].inbox.is_empty() {
                        self.step(&PStep::Deliver(s, usize::MAX));
                    }
                }
                for s in 0..2 {
                    self.step(&PStep::Told(s));
                }
                continue;
            }
            if !self.alive {
                self.step(&PStep::Connect);
                continue;
            }
            if let Some(s) = (0..2).find(|s| !self.n[*s].inbox.is_empty()) {
                self.step(&PStep::Deliver(s, usize::MAX));
                continue;
            }
            if let Some(s) = (0..2).find(|s| !self.n[*s].owed.is_empty()) {
                self.step(&PStep::Ack(s, false));
                continue;
            }
            break;
        }
        if !(self.n[0].connected && self.n[1].connected) {
            self.bad(0, "no connection is established once faults stop".into());
            return;
        }
        for (k, m) in &self.msgs {
            let want = match m.qos {
                0 => continue,
                _ if m.excused => continue,
                _ => 1,
            };
            if m.got < want || (m.qos == 2 && m.got > 1 && !m.refused) || (m.epoch == self.epoch && m.got != 1) {
                let t = format!("message {k} from the {} (QoS {}, id {}, topic {:?}) was delivered {} times", NAME[m.from], m.qos, m.pid, m.topic, m.got);
                self.viol.push((C01, t));
                return;
            }
        }
        for s in 0..2 {
            if let Ok(x) = self.n[s].ep.stored() {
                if !x.is_empty() {
                    self.bad(C06, format!("the {} still stores {:?} at quiescence", NAME[s], x.iter().map(|b| hex(b)).collect::<Vec<_>>()));
                }
            }
            if let Ok(x) = self.n[s].ep.handled() {
                if !x.is_empty() {
                    self.bad(C07, format!("the {} still remembers handled QoS 2 identifiers {x:?} at quiescence", NAME[s]));
                }
            }
            if let Ok(Some(v)) = self.n[s].ep.vacancy() {
                let want = self.cfg.s[1 - s].rm;
                if self.cfg.v5 && want > 0 && v != want {
                    self.bad(C12, format!("the {} has Receive Maximum vacancy {v} of {want} at quiescence", NAME[s]));
                }
            }
            let max = self.n[s].ids.iter().copied().max().unwrap_or(0).max(12);
            for i in 1..=max {
                let o = self.call(s, Call::Register(i));
                if o.ret != Ret::Unit(Ok(())) {
                    self.bad(C08, format!("the {} still holds packet identifier {i} at quiescence", NAME[s]));
                    break;
                }
                let o = self.call(s, Call::Release(i));
                if o.evs != vec![Ev::Released(i)] {
                    self.bad(C08, format!("release of {i} gave {}", showevs(&o.evs)));
                }
            }
        }
        self.stats.hit("runs that reached quiescence");
    }
}

fn payload(k: u32, len: usize) -> Vec<u8> {
    let mut v = k.to_be_bytes().to_vec();
    while v.len() < len {
        v.push((k as usize * 31 + v.len()) as u8);
    }
    v
}

/// the properties message `k` is published with
fn msgprops(k: u32) -> Props {
    match k % 5 {
        1 => vec![(1, PV::B(1)), (38, PV::P("k".into(), k.to_string()))],
        2 => vec![(38, PV::P("a".into(), "".into())), (38, PV::P("a".into(), "b".into())), (9, PV::X(vec![k as u8]))],
        3 => vec![(2, PV::D(k)), (8, PV::S("r".into()))],
        _ => vec![],
    }
}

fn short(c: &Call) -> String {
    match c {
        Call::Send { pk, .. } => format!("send({})", showpk(pk)),
        Call::Recv(b, p) => format!("recv({})", hex(&b[*p..])),
        x => format!("{x:?}"),
    }
}

// ------------------------------------------------------------------ generation

pub fn config(r: &mut Rng) -> PCfg {
    let v5 = r.pct(65);
    let persistent = r.pct(85);
    let mps = r.pct(25);
    let strict = r.pct(65);
    let side = |r: &mut Rng| Side {
        any: r.pct(12),
        autopub: r.pct(65),
        autoping: r.pct(75),
        automap: r.pct(35),
        autorepl: r.pct(35),
        offline: r.pct(40),
        rm: [0, 1, 2, 3, 10, 65535][r.us(6)],
        tam: [0, 0, 1, 2, 3, 65535][r.us(6)],
        mps: if mps { [64, 72, 100, 1 << 20, 268435460][r.us(5)] } else { 0 },
    };
    PCfg {
        w: if r.pct(60) { 2 } else { 4 },
        v5,
        und: r.pct(25),
        vec: r.bool(),
        persistent,
        ka: [0, 0, 1, 10, 60, 65535][r.us(6)],
        pingresp: [0, 0, 500, 5000][r.us(4)],
        strict,
        s: [side(r), side(r)],
    }
}

/// Generate and run one schedule.
pub fn generate(r: &mut Rng, long: bool) -> (PCfg, Vec<PStep>, Pair) {
    let cfg = config(r);
    let mut p = Pair::new(cfg.clone(), false);
    let mut steps = vec![];
    let n = if long { r.range(60, 500) } else { r.range(15, 140) };
    // swarm: which activities and faults this run has
    let lossy = [0u32, 1, 4, 12][r.us(4)];
    let crashy = [0u32, 0, 0, 2][r.us(4)];
    let frag = r.us(4);
    let q: [u32; 3] = [[0, 1, 3][r.us(3)], [0, 2, 4][r.us(3)], [1, 3, 6][r.us(3)]];
    let weights = [
        30 + r.below(60) as u32,                 // deliver
        8 + r.below(25) as u32,                  // publish
        [0, 2, 6][r.us(3)],                      // subscribe
        [0, 1, 4][r.us(3)],                      // ping
        lossy,                                   // lose
        10,                                      // told
        10,                                      // connect
        [0, 0, 1, 3][r.us(4)],                   // graceful disconnect
        10 + r.below(30) as u32,                 // answer
        [0, 1, 6][r.us(3)],                      // clock
        crashy,                                  // crash
        [0, 0, 2][r.us(3)],                      // erase
    ];
    let refuse = [0, 0, 10, 40][r.us(4)];
    let lopsided = r.below(3);
    let amnesia = r.pct(20);
    for _ in 0..n {
        let mut w = weights;
        if p.alive {
            w[6] = 0;
            if !p.n.iter().any(|x| x.open && x.done) {
                w[5] = 0;
            }
        } else {
            w[4] = 0;
            if p.n[0].open || p.n[1].open {
                w[6] = 0;
            } else {
                w[5] = 0;
            }
        }
        if p.n[0].inbox.is_empty() && p.n[1].inbox.is_empty() {
            w[0] = 0;
        }
        if p.n[0].owed.is_empty() && p.n[1].owed.is_empty() {
            w[8] = 0;
        }
        if !p.n[0].connected && p.cfg.strict {
            for k in [1, 2, 3, 7] {
                w[k] = 0;
            }
        }
        let side = |r: &mut Rng| match lopsided {
            0 => r.pct(85) as usize,
            1 => r.pct(15) as usize,
            _ => r.us(2),
        };
        let st = match r.weighted(&w).unwrap_or(6) {
            0 => {
                let s = if p.n[0].inbox.is_empty() {
                    1
                } else if p.n[1].inbox.is_empty() {
                    0
                } else {
                    r.us(2)
                };
                let l = p.n[s].inbox.len();
                let k = match frag {
                    0 => l,
                    1 => 1 + r.us(3),
                    2 => 1 + r.us(l),
                    _ => [1, 2, l, 1 + r.us(l)][r.us(4)],
                };
                PStep::Deliver(s, k)
            }
            1 => PStep::Pub {
                side: side(r),
                qos: r.weighted(&q).unwrap_or(2) as u8,
                topic: r.us(TOPICS.len()) as u8,
                len: [4, 4, 5, 20, 40, 60, 80, 200, 126, 127, 128, 254, 255, 256][r.us(14)],
                alias: if r.pct(50) { r.below(4) as u8 } else { 0 },
                retain: r.pct(20),
            },
            2 => PStep::Sub(0, r.bool()),
            3 => PStep::Ping,
            4 => {
                let a = p.n[0].inbox.len();
                let b = p.n[1].inbox.len();
                let k = |r: &mut Rng, l: usize| match r.below(3) {
                    0 => 0,
                    1 => l,
                    _ => r.us(l + 1),
                };
                PStep::Lose(k(r, a), k(r, b))
            }
            5 => PStep::Told(r.us(2)),
            6 => PStep::Connect,
            7 => PStep::Disc(r.us(2)),
            8 => PStep::Ack(if p.n[0].owed.is_empty() { 1 } else if p.n[1].owed.is_empty() { 0 } else { r.us(2) }, r.pct(refuse)),
            9 => PStep::Advance([1, 400, 1000, 1600, 10_000, 16_000, 70_000][r.us(7)]),
            10 => PStep::Crash(r.us(2), !(amnesia && r.pct(40))),
            _ => PStep::Erase(r.us(2)),
        };
        p.step(&st);
        steps.push(st);
        if !p.viol.is_empty() {
            break;
        }
    }
    if p.viol.is_empty() {
        p.quiesce();
    }
    (cfg, steps, p)
}

pub fn exec(cfg: &PCfg, steps: &[PStep], trace: bool) -> Pair {
    let mut p = Pair::new(cfg.clone(), trace);
    for s in steps {
        p.step(s);
        if !p.viol.is_empty() {
            return p;
        }
    }
    p.quiesce();
    p
}
