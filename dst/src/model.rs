//! The executable reference model: what an MQTT endpoint built on the library must do, call by call.
//! `Model::apply` is given every call, everything the library returned, and what its getters report afterwards;
//! it returns the violations and moves the model on.  Where the properties leave freedom the model follows
//! what it observes.  It shares no code with the library.

use crate::ep::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

pub const fn c(n: u32) -> u32 {
    1 << n
}
pub const C01: u32 = c(1);
pub const C04: u32 = c(4);
pub const C05: u32 = c(5);
pub const C06: u32 = c(6);
pub const C07: u32 = c(7);
pub const C08: u32 = c(8);
pub const C09: u32 = c(9);
pub const C10: u32 = c(10);
pub const C11: u32 = c(11);
pub const C12: u32 = c(12);
pub const C13: u32 = c(13);
pub const C14: u32 = c(14);
pub const C15: u32 = c(15);
pub const C16: u32 = c(16);
pub const C17: u32 = c(17);
pub const C19: u32 = c(19);
pub const C20: u32 = c(20);
pub const ALL: u32 = u32::MAX;

pub type Viol = (u32, String);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum St {
    Disc,
    Connecting,
    Connected,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Own {
    App,
    Sub,
    Unsub,
    P1,
    P2Rec,
    P2Gap,
    P2Comp,
}
impl Own {
    pub fn inflight(self) -> bool {
        matches!(self, Own::P1 | Own::P2Rec | Own::P2Gap | Own::P2Comp)
    }
}

/// what the getters report after a call
pub struct Post {
    pub stored: Result<Vec<Vec<u8>>, String>,
    pub handled: Result<BTreeSet<u32>, String>,
    pub vacancy: Result<Option<u16>, String>,
    pub ver: Ver,
}
impl Post {
    pub fn of(e: &dyn Ep) -> Post {
        Post { stored: e.stored(), handled: e.handled(), vacancy: e.vacancy(), ver: e.version() }
    }
}

#[derive(Clone)]
pub struct Model {
    pub role: Role,
    pub w: usize,
    pub maxid: u32,
    pub ver: Ver,
    pub st: St,
    pub as_client: bool,
    /// the library asked for the transport to be closed (or the application knows it must be)
    pub closing: bool,
    pub peer_disc: bool,
    /// the library accepted something the reference decoder is not certain about: model checks are off
    pub tainted: bool,
    /// ... on the current connection (false once its close was reported)
    pub taint_conn: bool,
    /// a documented corner was reached: end the run without a verdict
    pub corner: Option<&'static str>,
    pub opt: [bool; 5],
    pub user: Option<u64>,
    pub resp_to: u64,
    pub armed: [Option<u64>; 3],
    pub everarmed: [bool; 3],
    stale_send_ok: bool,
    pub ka_conn: u64,
    pub ka_srv: Option<u64>,
    pub recv_to: u64,
    pub ids: BTreeMap<u32, Own>,
    /// PUBREL-only exchanges on identifiers the application merely held
    pub orphan: BTreeSet<u32>,
    pub store: Vec<Pk>,
    pub persistent: bool,
    pub session_started: bool,
    pub handled: BTreeSet<u32>,
    pub handled_conn: BTreeSet<u32>,
    pub send_max: Option<u16>,
    pub recv_max: Option<u16>,
    pub inb: BTreeSet<u32>,
    pub mps_send: Option<u32>,
    pub mps_recv: Option<u32>,
    pub asend_max: u16,
    pub asend: BTreeMap<u16, String>,
    /// recency orders of bound aliases, least recent first: by insert; by insert or explicit use; by any use
    lru: [Vec<u16>; 3],
    pub arecv_max: u16,
    pub arecv: BTreeMap<u16, String>,
    pub pend: Vec<u8>,
    /// identifiers a failed send would have to give back (release_packet_id_if_send_error = Some)
    pub rel_on_err: BTreeSet<u32>,
    /// connections established so far, sessions begun etc. (coverage only)
    pub n_conn: u32,
}

struct Evs<'a> {
    v: &'a [Ev],
    used: Vec<bool>,
}
impl<'a> Evs<'a> {
    fn take(&mut self, f: impl Fn(&Ev) -> bool) -> Option<usize> {
        for i in 0..self.v.len() {
            if !self.used[i] && f(&self.v[i]) {
                self.used[i] = true;
                return Some(i);
            }
        }
        None
    }
    fn take_all(&mut self, f: impl Fn(&Ev) -> bool) -> usize {
        let mut n = 0;
        while self.take(&f).is_some() {
            n += 1;
        }
        n
    }
    fn has(&self, f: impl Fn(&Ev) -> bool) -> bool {
        self.v.iter().any(f)
    }
    fn err(&self) -> Option<&str> {
        self.v.iter().find_map(|e| if let Ev::Error(s) = e { Some(s.as_str()) } else { None })
    }
    fn closes(&self) -> bool {
        self.has(|e| matches!(e, Ev::Close))
    }
    fn sends(&self) -> bool {
        self.has(|e| matches!(e, Ev::Send { .. }))
    }
}

/// verdict of the reference gate on a send
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gate {
    Accept,
    Refuse(u32),
    Either,
}

pub fn kind_allowed(role: Role, ty: u8, v5: bool) -> bool {
    let client = matches!(ty, 1 | 3..=8 | 10 | 12 | 14) || (ty == 15 && v5);
    let server = matches!(ty, 2 | 3..=7 | 9 | 11 | 13) || ((ty == 14 || ty == 15) && v5);
    match role {
        Role::Client => client,
        Role::Server => server,
        Role::Any => client || server,
    }
}
/// may the remote side of this role ever send this kind?
pub fn kind_receivable(role: Role, ty: u8, v5: bool) -> bool {
    match role {
        Role::Client => kind_allowed(Role::Server, ty, v5),
        Role::Server => kind_allowed(Role::Client, ty, v5),
        Role::Any => kind_allowed(Role::Any, ty, v5),
    }
}

/// the rewritten content stored for a PUBLISH: DUP set, full topic, no alias
pub fn stored_form(p: &Publish, topic: &str) -> Pk {
    let mut s = p.without_alias();
    s.topic = topic.to_string();
    s.dup = true;
    Pk::Publish(s)
}

/// the property an unjustified error event concerns, by the rule the error names
fn blame(t: &str) -> u32 {
    if t.contains("ReceiveMaximum") {
        C12
    } else if t.contains("TooLarge") {
        C14
    } else if t.contains("TopicAlias") {
        C13
    } else if t.contains("Identifier") {
        C08 | C06 | C11
    } else {
        0
    }
}

impl Model {
    pub fn new(role: Role, w: usize, ver: Ver) -> Model {
        Model {
            role,
            w,
            maxid: if w == 2 { u16::MAX as u32 } else { u32::MAX },
            ver,
            st: St::Disc,
            as_client: false,
            closing: false,
            peer_disc: false,
            tainted: false,
            taint_conn: false,
            corner: None,
            opt: [false; 5],
            user: None,
            resp_to: 0,
            armed: [None; 3],
            everarmed: [false; 3],
            stale_send_ok: false,
            ka_conn: 0,
            ka_srv: None,
            recv_to: 0,
            ids: BTreeMap::new(),
            orphan: BTreeSet::new(),
            store: vec![],
            persistent: false,
            session_started: false,
            handled: BTreeSet::new(),
            handled_conn: BTreeSet::new(),
            send_max: None,
            recv_max: None,
            inb: BTreeSet::new(),
            mps_send: None,
            mps_recv: None,
            asend_max: 0,
            asend: BTreeMap::new(),
            lru: [vec![], vec![], vec![]],
            arecv_max: 0,
            arecv: BTreeMap::new(),
            pend: vec![],
            rel_on_err: BTreeSet::new(),
            n_conn: 0,
        }
    }

    pub fn v5(&self) -> bool {
        self.ver == Ver::V5
    }
    pub fn strict(&self) -> bool {
        self.st == St::Connected && !self.closing && !self.peer_disc && !self.tainted
    }
    pub fn interval(&self) -> u64 {
        self.user.or(self.ka_srv).unwrap_or(self.ka_conn)
    }
    pub fn inflight(&self) -> usize {
        self.ids.values().filter(|o| o.inflight()).count()
    }
    fn inflight_lo(&self) -> usize {
        self.inflight() - self.orphan.iter().filter(|i| self.ids.contains_key(i)).count()
    }
    pub fn fits(&self, n: usize) -> bool {
        !self.v5() || self.mps_send.is_none_or(|m| n <= m as usize)
    }
    fn will_store(&self) -> bool {
        self.persistent && (self.st != St::Disc || self.opt[O_OFFLINE as usize])
    }
    pub fn in_store(&self, pid: u32, publish: bool) -> bool {
        self.store.iter().any(|p| match p {
            Pk::Publish(p) => publish && p.pid == pid,
            Pk::Ack { pid: i, .. } => !publish && *i == pid,
            _ => false,
        })
    }
    fn erase(&mut self, pid: u32, publish: bool) {
        self.store.retain(|p| match p {
            Pk::Publish(p) => !(publish && p.pid == pid),
            Pk::Ack { pid: i, .. } => publish || *i != pid,
            _ => true,
        })
    }
    fn free(&mut self, pid: u32) {
        self.ids.remove(&pid);
        self.orphan.remove(&pid);
        self.rel_on_err.remove(&pid);
    }
    fn bind(&mut self, a: u16, t: &str) {
        self.asend.insert(a, t.to_string());
        for l in self.lru.iter_mut() {
            l.retain(|x| *x != a);
            l.push(a);
        }
    }
    fn touch(&mut self, a: u16, explicit: bool) {
        for (i, l) in self.lru.iter_mut().enumerate() {
            if i == 2 || (i == 1 && explicit) {
                l.retain(|x| *x != a);
                l.push(a);
            }
        }
    }
    /// everything negotiated on a connection
    fn reset_connection(&mut self) {
        self.send_max = None;
        self.recv_max = None;
        self.inb.clear();
        self.mps_send = None;
        self.mps_recv = None;
        self.asend_max = 0;
        self.asend.clear();
        self.lru = [vec![], vec![], vec![]];
        self.arecv_max = 0;
        self.arecv.clear();
        self.rel_on_err.clear();
    }
    fn start_connecting(&mut self, client: bool) {
        self.reset_connection();
        self.st = St::Connecting;
        self.as_client = client;
        self.ka_conn = 0;
        self.ka_srv = None;
        self.recv_to = 0;
        self.persistent = false;
        self.handled_conn.clear();
        self.session_started = false;
        self.closing = false;
        self.peer_disc = false;
    }
    fn new_session(&mut self) {
        self.ids.clear();
        self.orphan.clear();
        self.rel_on_err.clear();
        self.store.clear();
        self.handled.clear();
    }

    // ---------------------------------------------------------------- the gate

    fn gate(&self, pk: &Pk, v5: bool) -> Gate {
        use Gate::*;
        let ty = pk.ty();
        if self.ver == Ver::Und || v5 != self.v5() {
            return Refuse(C11 | C17);
        }
        if !kind_allowed(self.role, ty, v5) {
            return Refuse(C11);
        }
        let size = pk.encode(v5, self.w).len();
        if !self.fits(size) {
            return Refuse(C14);
        }
        let connected = self.st == St::Connected;
        let mut either = false;
        match pk {
            Pk::Connect(_) => {
                if self.st != St::Disc {
                    return Refuse(C11 | C19);
                }
            }
            Pk::Connack { .. } => {
                if self.st != St::Connecting {
                    return Refuse(C11);
                }
            }
            Pk::Auth { .. } => {
                if self.st == St::Disc {
                    return Refuse(C11);
                }
            }
            Pk::Publish(p) => {
                if !connected {
                    if p.qos == 0 {
                        return Refuse(C11);
                    }
                    if !self.will_store() {
                        if !self.persistent && !self.opt[O_OFFLINE as usize] {
                            return Refuse(C11 | C06);
                        }
                        // persistent without offline publishing, or the reverse: MQTT does not say; the library
                        // may keep it or refuse it, but not drop it
                        either = true;
                    }
                }
                if p.qos > 0 && !self.ids.contains_key(&p.pid) {
                    return Refuse(C08 | C06);
                }
                if v5 {
                    match p.alias() {
                        None => {
                            if p.topic.is_empty() {
                                return Refuse(C13);
                            }
                        }
                        Some(a) => {
                            if a == 0 || a > self.asend_max {
                                return Refuse(C13);
                            }
                            if p.topic.is_empty() && !self.asend.contains_key(&a) {
                                return Refuse(C13);
                            }
                        }
                    }
                    if p.qos > 0 {
                        if let Some(m) = self.send_max {
                            if connected {
                                if self.inflight_lo() >= m as usize {
                                    return Refuse(C12);
                                }
                                if self.inflight() >= m as usize {
                                    either = true;
                                }
                            } else {
                                either = true;
                            }
                        }
                    }
                }
            }
            Pk::Ack { k: 6, pid, .. } => {
                if !connected && !self.persistent {
                    if self.opt[O_OFFLINE as usize] {
                        either = true;
                    } else {
                        return Refuse(C11);
                    }
                }
                if !self.ids.contains_key(pid) {
                    return Refuse(C08 | C06);
                }
            }
            Pk::Subscribe { pid, .. } | Pk::Unsubscribe { pid, .. } => {
                if !connected {
                    return Refuse(C11);
                }
                if !self.ids.contains_key(pid) {
                    return Refuse(C08);
                }
            }
            _ => {
                if !connected {
                    return Refuse(C11);
                }
            }
        }
        if self.closing || self.peer_disc || either {
            return Either;
        }
        Accept
    }

    // ---------------------------------------------------------------- apply

    pub fn apply(&mut self, call: &Call, out: &Out, post: &Post) -> Vec<Viol> {
        let mut v: Vec<Viol> = vec![];
        if let Some(m) = &out.panic {
            v.push((ALL, format!("the call panicked: {m}")));
            return v;
        }
        let evs = &out.evs;
        let bound = 24 + 2 * self.store.len() + 2 * self.ids.len();
        if evs.len() > bound {
            v.push((C05, format!("{} events from one call", evs.len())));
        }
        // ---- order: nothing to send after a close request
        let mut closed = false;
        for e in evs {
            match e {
                Ev::Close => closed = true,
                Ev::Send { .. } if closed => {
                    v.push((C19, "a packet is requested for sending after the close request".into()));
                }
                _ => {}
            }
        }
        for e in evs {
            if let Ev::Send { bytes, pk, v5, .. } = e {
                match pk {
                    None => v.push((
                        C01 | C06 | C11 | C13,
                        format!("requested to send bytes that are no valid packet: {}", hex(bytes)),
                    )),
                    Some(p) => {
                        let must_close = match p {
                            Pk::Disconnect { .. } => true,
                            Pk::Connack { rc, .. } => *rc != 0,
                            _ => false,
                        };
                        if must_close && !closed {
                            v.push((C19, format!("{} sent without a close request in the same list", p.name())));
                        }
                        if !kind_allowed(self.role, p.ty(), *v5) {
                            v.push((C11, format!("{} requested by a {:?}", p.name(), self.role)));
                        }
                    }
                }
            }
        }
        let before_armed = self.armed;
        let mut e = Evs { v: evs, used: vec![false; evs.len()] };
        let mut cx = Cx::default();
        match call {
            Call::Send { pk, v5, checked } => self.on_send(pk, *v5, *checked, &out.ret, &mut e, &mut cx, &mut v),
            Call::Recv(b, pos) => self.on_recv(&b[*pos..], &out.ret, &mut e, &mut cx, &mut v),
            Call::Fire(k) => self.on_fire(*k, &mut e, &mut cx, &mut v),
            Call::Close => self.on_close(&mut cx),
            Call::Interval(x) => {
                self.user = *x;
                if x.is_none() && self.armed[0].is_some() {
                    self.stale_send_ok = true;
                }
                if let Some(ms) = x {
                    if self.strict() && self.as_client && *ms > 0 {
                        cx.want_send_reset = true;
                    }
                    if *ms == 0 {
                        cx.no_send_armed = true;
                    }
                }
            }
            Call::PingrespTo(x) => self.resp_to = *x,
            Call::Opt(o, b) => {
                self.opt[*o as usize] = *b;
                if *o == O_OFFLINE && *b {
                    if let (false, Ok(s)) = (self.persistent, &post.stored) {
                        // the session was ending: what the library still holds of it is its choice
                        let (v5, w) = (self.v5(), self.w);
                        self.store.retain(|p| s.contains(&p.encode(v5, w)));
                    }
                    self.persistent = true;
                }
            }
            Call::Acquire => match &out.ret {
                Ret::Id(Ok(i)) => {
                    if *i == 0 || *i > self.maxid {
                        v.push((C08, format!("acquire handed out {i}")));
                    }
                    if let Some(o) = self.ids.insert(*i, Own::App) {
                        v.push((C08 | C16, format!("acquire handed out {i}, which is in use ({o:?})")));
                    }
                }
                Ret::Id(Err(x)) => {
                    if (self.ids.len() as u64) < self.maxid as u64 {
                        v.push((C08, format!("acquire failed ({x}) with {} identifiers in use", self.ids.len())));
                    }
                }
                _ => {}
            },
            Call::Register(i) => {
                if let Ret::Unit(r) = &out.ret {
                    let free = *i >= 1 && !self.ids.contains_key(i);
                    if r.is_ok() != free {
                        v.push((
                            C08 | C06 | C16,
                            format!("register({i}) returned {r:?} but the identifier is {:?}", self.ids.get(i)),
                        ));
                    }
                    if r.is_ok() {
                        self.ids.entry(*i).or_insert(Own::App);
                    }
                }
            }
            Call::Release(i) => {
                if self.ids.contains_key(i) {
                    cx.rel_must.insert(*i);
                }
            }
            Call::Erase(i) => {
                if self.in_store(*i, true) && (self.persistent || evs.contains(&Ev::Released(*i))) {
                    self.erase(*i, true);
                    cx.rel_must.insert(*i);
                } else if self.ids.get(i).is_some_and(|o| matches!(o, Own::P1 | Own::P2Rec)) && !self.persistent {
                    cx.rel_may.insert(*i);
                }
            }
            Call::RestorePackets(l, v5) => {
                for b in l {
                    let Ok(pk) = decode(b, *v5, self.w) else { continue };
                    let (pid, own) = match &pk {
                        Pk::Publish(p) if p.qos == 1 => (p.pid, Own::P1),
                        Pk::Publish(p) if p.qos == 2 => (p.pid, Own::P2Rec),
                        Pk::Ack { k: 6, pid, .. } => (*pid, Own::P2Comp),
                        _ => continue,
                    };
                    if self.ids.contains_key(&pid) {
                        continue;
                    }
                    self.ids.insert(pid, own);
                    self.store.push(pk);
                }
                if !l.is_empty() && self.st == St::Disc {
                    self.persistent = true;
                }
                if let Ret::Unit(Err(x)) = &out.ret {
                    v.push((C16 | C06, x.clone()));
                }
            }
            Call::RestoreHandled(l) => {
                self.handled = l.iter().copied().collect();
                if !l.is_empty() && self.st == St::Disc {
                    self.persistent = true;
                }
            }
            Call::Regulate(pk) => self.on_regulate(pk, &out.ret, &mut v),
        }
        self.finish(call, evs, &mut e, &mut cx, before_armed, post, &mut v);
        v
    }

    fn on_regulate(&self, pk: &Pk, ret: &Ret, v: &mut Vec<Viol>) {
        let Pk::Publish(p) = pk else { return };
        let want: Option<Pk> = if p.topic.is_empty() {
            p.alias().and_then(|a| self.asend.get(&a)).map(|t| {
                let mut q = p.without_alias();
                q.topic = t.clone();
                Pk::Publish(q)
            })
        } else {
            Some(Pk::Publish(p.without_alias()))
        };
        match (ret, want) {
            (Ret::Bytes(Ok(b)), Some(w)) => {
                if *b != w.encode(true, self.w) {
                    v.push((C13, format!("regulate_for_store gave {} for {}", hex(b), showpk(pk))));
                }
            }
            (Ret::Bytes(Ok(b)), None) => {
                v.push((C13, format!("regulate_for_store resolved an unbound alias: {} -> {}", showpk(pk), hex(b))))
            }
            (Ret::Bytes(Err(x)), Some(_)) => {
                v.push((C13, format!("regulate_for_store refused {} ({x})", showpk(pk))))
            }
            _ => {}
        }
    }

    fn on_close(&mut self, cx: &mut Cx) {
        for (i, o) in &self.ids {
            match o {
                Own::Sub | Own::Unsub => {
                    cx.rel_must.insert(*i);
                }
                Own::App => {}
                _ => {
                    if !self.persistent {
                        cx.rel_must.insert(*i);
                    }
                }
            }
        }
        self.reset_connection();
        self.st = St::Disc;
        self.closing = false;
        self.peer_disc = false;
        self.taint_conn = false;
        self.pend.clear();
        if !self.persistent {
            self.store.clear();
            self.handled.clear();
            cx.store_empty = true;
        }
        self.handled_conn.clear();
    }

    fn on_fire(&mut self, k: u8, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        self.armed[k as usize] = None;
        let strict = self.strict();
        if k == T_SEND {
            self.stale_send_ok = false;
            let got = e.take(|x| matches!(x, Ev::Send { pk: Some(Pk::Pingreq), .. })).is_some();
            if strict && self.as_client && self.fits(2) && !got {
                v.push((C15, "the PINGREQ send timer fired on an established connection and no PINGREQ was sent".into()));
            }
            if got {
                if self.st != St::Connected && !self.tainted {
                    v.push((C15 | C11, "PINGREQ sent without an established connection".into()));
                }
                cx.pingreq_sent = true;
            }
            cx.err_ok = true;
            return;
        }
        let close = e.take_all(|x| matches!(x, Ev::Close)) > 0;
        let disc = e
            .take(|x| matches!(x, Ev::Send { pk: Some(Pk::Disconnect { rc: Some(0x8d), .. }), .. }))
            .is_some();
        cx.err_ok = true;
        if strict {
            if !close {
                v.push((C15 | C19, format!("{} expired on an established connection without a close request", TNAME[k as usize])));
            }
            if self.v5() && !disc && self.fits(3) {
                v.push((C15, format!("{} expired and no DISCONNECT Keep Alive timeout was sent", TNAME[k as usize])));
            }
            if !self.v5() && disc {
                v.push((C15 | C11, "v3.1.1 keep-alive expiry sent a DISCONNECT".into()));
            }
        } else if disc && self.st != St::Connected && !self.tainted {
            v.push((C11 | C15, "DISCONNECT sent without an established connection".into()));
        }
        if close || disc {
            self.closing = true;
        }
        if self.v5() && (close || disc) {
            self.st = St::Disc;
        }
    }

    // ---------------------------------------------------------------- sending

    #[allow(clippy::too_many_arguments)]
    fn on_send(&mut self, pk: &Pk, v5: bool, checked: bool, ret: &Ret, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        if *ret == Ret::NotMade {
            if checked && kind_allowed(self.role, pk.ty(), v5) {
                v.push((C11, format!("checked_send does not accept {} (v5={v5}) for {:?}", pk.name(), self.role)));
            }
            return;
        }
        if checked && !kind_allowed(self.role, pk.ty(), v5) {
            v.push((C11, format!("checked_send accepts {} (v5={v5}) for {:?}", pk.name(), self.role)));
        }
        let fresh = matches!(pk, Pk::Connect(_)) && !self.taint_conn;
        let gate = if self.tainted && !fresh { Gate::Either } else { self.gate(pk, v5) };
        let err = e.err().map(|s| s.to_string());
        let accepted = err.is_none();
        let connected = self.st == St::Connected;
        if !accepted {
            e.take_all(|x| matches!(x, Ev::Error(_)));
            // refused: only the error, and the packet's own identifier back
            if e.sends() || e.closes() || e.has(|x| matches!(x, Ev::Reset(..) | Ev::Cancel(_) | Ev::Recv { .. })) {
                v.push((
                    C11 | if let Gate::Refuse(m) = gate { m } else { 0 },
                    format!("a refused {} had other effects: {}", pk.name(), showevs(e.v)),
                ));
            }
            if let Some(id) = pk.own_id() {
                if self.ids.get(&id) == Some(&Own::App) {
                    cx.rel_must.insert(id);
                }
            }
            if gate == Gate::Accept {
                let t = err.unwrap();
                let m = blame(&t)
                    | match pk {
                        Pk::Publish(p) if p.alias().is_some() => C13 | C11,
                        Pk::Publish(_) | Pk::Ack { k: 6, .. } => C11 | C06,
                        _ => C11,
                    };
                let m = m | if self.n_conn > 1 || self.persistent { C10 } else { 0 };
                v.push((m, format!("{} was refused ({t}) although nothing forbids it", showpk(pk))));
            }
            return;
        }
        // accepted
        if let Gate::Refuse(m) = gate {
            v.push((
                m | C11 | if e.sends() { 0 } else { C06 },
                format!("{} was accepted in state {:?} although it must be refused", showpk(pk), self.st),
            ));
        }
        let transmits = match pk {
            Pk::Publish(_) | Pk::Ack { k: 6, .. } => connected,
            _ => true,
        };
        let mut sent: Option<Publish> = None;
        if transmits {
            let want = pk.encode(v5, self.w);
            let auto = v5 && (self.opt[O_AUTOMAP as usize] || self.opt[O_AUTOREPL as usize]);
            let idx = match pk {
                Pk::Publish(p) if auto && p.alias().is_none() => {
                    let p = p.clone();
                    e.take(|x| match x {
                        Ev::Send { pk: Some(Pk::Publish(q)), .. } => {
                            let mut a = q.without_alias();
                            if q.alias().is_some() && q.topic.is_empty() {
                                a.topic = p.topic.clone();
                            }
                            a == p
                        }
                        _ => false,
                    })
                }
                _ => e.take(|x| matches!(x, Ev::Send { bytes, .. } if *bytes == want)),
            };
            match idx {
                None => {
                    let m = match pk {
                        Pk::Publish(p) => C06 | C11 | C01 | if v5 { C13 } else { 0 } | if p.qos > 0 { C12 } else { 0 },
                        Pk::Ack { .. } => C06 | C07 | C11 | C01,
                        _ => C11,
                    };
                    v.push((m, format!("{} was accepted without being requested for sending", showpk(pk))));
                }
                Some(i) => {
                    if let Ev::Send { rel, pk: q, .. } = &e.v[i] {
                        if let Some(Pk::Publish(q)) = q {
                            sent = Some(q.clone());
                        }
                        let want = match pk {
                            Pk::Publish(p) if p.qos > 0 && !self.will_store() => Some(p.pid),
                            Pk::Subscribe { pid, .. } | Pk::Unsubscribe { pid, .. } => Some(*pid),
                            _ => None,
                        };
                        if *rel != want && !self.tainted {
                            v.push((
                                C08 | C06,
                                format!("{}: release_packet_id_if_send_error is {rel:?}, expected {want:?}", pk.name()),
                            ));
                        }
                        if let Some(r) = rel {
                            self.rel_on_err.insert(*r);
                        }
                    }
                }
            }
        }
        self.accepted(pk, sent.as_ref(), e, cx, v);
    }

    /// state change of an accepted outgoing packet
    fn accepted(&mut self, pk: &Pk, sent: Option<&Publish>, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        match pk {
            Pk::Connect(c) => {
                let was_tainted = self.tainted;
                self.start_connecting(true);
                self.ka_conn = c.ka as u64 * 1000;
                if c.clean {
                    self.new_session();
                    cx.store_empty = true;
                    self.tainted = false;
                } else {
                    self.tainted = was_tainted;
                }
                if self.v5() {
                    self.arecv_max = prop_u32(&c.props, 34).unwrap_or(0) as u16;
                    self.recv_max = prop_u32(&c.props, 33).map(|x| x as u16);
                    self.mps_recv = prop_u32(&c.props, 39);
                    self.persistent = prop_u32(&c.props, 17).is_some_and(|x| x > 0);
                } else {
                    self.persistent = !c.clean;
                }
            }
            Pk::Connack { sp, rc, props } => {
                if *rc != 0 {
                    if e.take_all(|x| matches!(x, Ev::Close)) == 0 {
                        // reported by the generic check
                    }
                    self.st = St::Disc;
                    self.closing = true;
                    return;
                }
                self.st = St::Connected;
                self.n_conn += 1;
                if self.v5() {
                    if let Some(x) = prop_u32(props, 34) {
                        if x > 0 {
                            self.arecv_max = x as u16;
                        }
                    }
                    if let Some(x) = prop_u32(props, 33) {
                        self.recv_max = Some(x as u16);
                    }
                    if let Some(x) = prop_u32(props, 39) {
                        self.mps_recv = Some(x);
                    }
                    if let Some(x) = prop_u32(props, 19) {
                        self.recv_to = x as u64 * 1500;
                        cx.want_recv_reset = x > 0;
                    }
                    if let Some(x) = prop_u32(props, 17) {
                        self.persistent = x != 0;
                    }
                }
                let resume = *sp || self.session_started;
                self.resume(resume, e, cx, v);
            }
            Pk::Publish(p) => {
                let topic = if p.topic.is_empty() {
                    p.alias().and_then(|a| self.asend.get(&a).cloned()).unwrap_or_default()
                } else {
                    p.topic.clone()
                };
                if p.qos > 0 {
                    self.ids.insert(p.pid, if p.qos == 1 { Own::P1 } else { Own::P2Rec });
                    if self.will_store() {
                        self.store.push(stored_form(p, &topic));
                    } else if self.st != St::Connected {
                        cx.must_be_stored = Some(stored_form(p, &topic));
                    }
                }
                if let Some(q) = sent {
                    self.alias_sent(q, &topic, p.alias().is_some(), v);
                }
            }
            Pk::Ack { k, pid, rc, .. } => match k {
                4 => {
                    self.inb.remove(pid);
                }
                5 => {
                    if self.v5() && rc.is_some_and(|r| r >= 0x80) {
                        self.inb.remove(pid);
                        self.handled.remove(pid);
                    }
                }
                6 => self.pubrel_out(*pid, pk),
                _ => {
                    self.inb.remove(pid);
                }
            },
            Pk::Subscribe { pid, .. } => {
                self.ids.insert(*pid, Own::Sub);
            }
            Pk::Unsubscribe { pid, .. } => {
                self.ids.insert(*pid, Own::Unsub);
            }
            Pk::Pingreq => cx.pingreq_sent = true,
            Pk::Disconnect { .. } => {
                e.take_all(|x| matches!(x, Ev::Close));
                self.st = St::Disc;
                self.closing = true;
            }
            _ => {}
        }
    }

    fn pubrel_out(&mut self, pid: u32, pk: &Pk) {
        if self.ids.get(&pid) == Some(&Own::App) {
            self.orphan.insert(pid);
        }
        self.ids.insert(pid, Own::P2Comp);
        if self.persistent {
            self.store.push(pk.clone());
        }
    }

    /// a PUBLISH actually requested for sending: the receiver's alias table, and what it resolves to
    fn alias_sent(&mut self, q: &Publish, topic: &str, by_app: bool, v: &mut Vec<Viol>) {
        if self.tainted {
            return;
        }
        match q.alias() {
            None => {
                if q.topic != topic {
                    v.push((C13, format!("PUBLISH for {topic:?} sent with topic {:?} and no alias", q.topic)));
                }
            }
            Some(a) => {
                if a == 0 || a > self.asend_max {
                    v.push((C13, format!("topic alias {a} sent, peer's maximum is {}", self.asend_max)));
                }
                if q.topic.is_empty() {
                    match self.asend.get(&a) {
                        Some(t) if t == topic => self.touch(a, by_app),
                        t => v.push((
                            C13,
                            format!("PUBLISH for {topic:?} sent as alias {a}, which the receiver resolves to {t:?}"),
                        )),
                    }
                } else {
                    if q.topic != topic {
                        v.push((C13, format!("PUBLISH for {topic:?} sent with topic {:?}", q.topic)));
                    }
                    if !by_app && self.asend.contains_key(&a) {
                        let full = self.asend.len() >= self.asend_max as usize;
                        let lru = self.lru.iter().any(|l| l.first() == Some(&a));
                        if self.asend.get(&a).is_some_and(|t| t != topic) && (!full || !lru) {
                            v.push((
                                C13,
                                format!("automatic mapping rebound alias {a}, which is neither free nor least recently used"),
                            ));
                        }
                    }
                    self.bind(a, &q.topic.clone());
                }
            }
        }
    }

    /// CONNACK with success: retransmission of the store, or reset
    fn resume(&mut self, resume: bool, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let conn = std::mem::take(&mut self.handled_conn);
        if !resume {
            self.new_session();
            self.handled = conn;
            cx.store_empty = true;
            cx.wholesale = true;
            return;
        }
        if self.tainted {
            cx.any_send = true;
            return;
        }
        let mut keep = vec![];
        let mut last: Option<usize> = None;
        for p in std::mem::take(&mut self.store) {
            let want = p.encode(self.v5(), self.w);
            let pid = match &p {
                Pk::Publish(p) => p.pid,
                Pk::Ack { pid, .. } => *pid,
                _ => 0,
            };
            if !self.fits(want.len()) {
                cx.rel_must.insert(pid);
                continue;
            }
            match e.take(|x| matches!(x, Ev::Send { bytes, .. } if *bytes == want)) {
                None => v.push((
                    C06 | C16 | C01 | C12 | C14 | if matches!(p, Pk::Publish(_)) { C13 } else { 0 },
                    format!("stored {} was not retransmitted as stored after the CONNACK", showpk(&p)),
                )),
                Some(i) => {
                    if last.is_some_and(|l| l > i) {
                        v.push((C06 | C16, "stored packets retransmitted out of store order".into()));
                    }
                    last = Some(i);
                    if let Ev::Send { rel: Some(r), .. } = &e.v[i] {
                        v.push((C06 | C08, format!("a retransmission asks for release of {r} on a send error")));
                    }
                }
            }
            keep.push(p);
        }
        self.store = keep;
    }

    // ---------------------------------------------------------------- receiving

    fn on_recv(&mut self, b: &[u8], ret: &Ret, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let Ret::Consumed(n) = *ret else { return };
        let plen = self.pend.len();
        let mut all = std::mem::take(&mut self.pend);
        all.extend_from_slice(b);
        let unit = next_unit(&all);
        let want = match unit {
            Unit::Frame { len, .. } | Unit::BadLen { len } => len - plen,
            Unit::Partial => b.len(),
        };
        if n != want {
            v.push((
                C09 | C05,
                format!("recv consumed {n} of {} bytes, the next packet boundary is at {want}", b.len()),
            ));
            self.corner = Some("framing diverged");
        }
        match unit {
            Unit::Partial => {
                self.pend = all;
                if !e.v.is_empty() {
                    v.push((C09 | C05, format!("events from an incomplete frame: {}", showevs(e.v))));
                    e.used.iter_mut().for_each(|x| *x = true);
                }
            }
            Unit::BadLen { .. } => {
                if e.take_all(|x| matches!(x, Ev::Error(_))) == 0 {
                    v.push((C09 | C05, "over-long Remaining Length was not reported".into()));
                }
                if e.take_all(|x| matches!(x, Ev::Close)) > 0 {
                    self.closing = true;
                }
                self.disc_answer(e);
                cx.err_ok = true;
            }
            Unit::Frame { hdr, len } => {
                let f = all[..len].to_vec();
                self.on_frame(&f, hdr, e, cx, v);
            }
        }
    }

    /// a DISCONNECT/CONNACK the library answers an error with
    fn disc_answer(&mut self, e: &mut Evs) -> Option<u8> {
        let mut r = None;
        for (i, x) in e.v.iter().enumerate() {
            if e.used[i] {
                continue;
            }
            match x {
                Ev::Send { pk: Some(Pk::Disconnect { rc, .. }), .. } if self.st == St::Connected => {
                    e.used[i] = true;
                    r = Some(rc.unwrap_or(0));
                    self.st = St::Disc;
                    self.closing = true;
                }
                Ev::Send { pk: Some(Pk::Connack { rc, .. }), .. } if *rc != 0 && self.st != St::Connected => {
                    e.used[i] = true;
                    r = Some(*rc);
                    self.st = St::Disc;
                    self.closing = true;
                }
                _ => {}
            }
        }
        r
    }

    /// The frame must not have been delivered: an error is required.  `rc`: the DISCONNECT the property names.
    fn reject(&mut self, what: &str, mask: u32, rc: Option<u8>, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let strict = self.strict();
        let mps_ok = self.fits(3);
        let was_v5 = self.v5();
        if e.has(|x| matches!(x, Ev::Recv { .. })) {
            v.push((mask, format!("{what} was delivered to the application")));
            e.take_all(|x| matches!(x, Ev::Recv { .. }));
        }
        if e.take_all(|x| matches!(x, Ev::Error(_))) == 0 {
            v.push((mask | C05, format!("{what} was not reported through an error event")));
        }
        let close = e.take_all(|x| matches!(x, Ev::Close)) > 0;
        let got = self.disc_answer(e);
        if strict {
            if let Some(w) = rc {
                if mps_ok && got != Some(w) {
                    v.push((mask, format!("{what} must be answered with DISCONNECT 0x{w:02x}, got {got:02x?}")));
                }
                if !mps_ok && !close {
                    v.push((mask | C19, format!("{what}: no close although DISCONNECT does not fit the peer's limit")));
                }
            }
        }
        if close {
            self.closing = true;
            if was_v5 && strict {
                self.st = St::Disc;
            }
        }
        cx.err_ok = true;
        cx.rejected = true;
    }

    fn on_frame(&mut self, f: &[u8], hdr: usize, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let ty = f[0] >> 4;
        let strict = self.strict();
        let delivered = e.has(|x| matches!(x, Ev::Recv { .. }));
        let errored = e.has(|x| matches!(x, Ev::Error(_)));
        let v5 = match self.ver {
            Ver::V5 => true,
            Ver::V3 => false,
            Ver::Und => {
                // level byte of a CONNECT
                let Unit::Frame { hdr, .. } = next_unit(f) else { return };
                let lv = f.get(hdr + 6).copied();
                if ty != 1 || !(lv == Some(4) || lv == Some(5)) {
                    if self.tainted && !errored {
                        return;
                    }
                    self.reject("a first packet that is no v3.1.1/v5.0 CONNECT", C17, None, e, cx, v);
                    return;
                }
                lv == Some(5)
            }
        };
        if self.tainted {
            let anew = self.st == St::Disc
                && !self.taint_conn
                && !self.closing
                && kind_receivable(self.role, 1, v5)
                && matches!(decode(f, v5, self.w), Ok(Pk::Connect(c)) if c.clean);
            if !anew {
                self.tainted_frame(f, v5, delivered, errored, e, cx, v);
                return;
            }
            // a clean start: whatever happened before, from here everything is known again
            self.tainted = false;
        }
        // 1. our Maximum Packet Size
        let minimal = {
            let mut h = vec![];
            vbi((f.len() - hdr) as u32, &mut h);
            1 + h.len() + f.len() - hdr
        };
        if self.ver == Ver::V5 && self.mps_recv.is_some_and(|m| minimal > m as usize) {
            self.reject(&format!("a {}-byte packet over our Maximum Packet Size", f.len()), C14, Some(0x95), e, cx, v);
            return;
        }
        // 2. role gating
        let lenient_role = self.role == Role::Any && matches!(ty, 13 | 14);
        let lenient_role = lenient_role || (self.role == Role::Any && ty == 14);
        if !kind_receivable(self.role, ty, v5) && !lenient_role {
            let snap = self.clone();
            let named = !(ty == 0 || (ty == 15 && self.role == Role::Any));
            if named && !e.err().is_none_or(|t| t.contains("ProtocolError")) {
                v.push((C17, format!("{} received by a {:?} is reported as {}", TYNAME[ty as usize], self.role, e.err().unwrap_or(""))));
            }
            self.reject(&format!("{} received by a {:?}", TYNAME[ty as usize], self.role), C17, None, e, cx, v);
            cx.untouched(&snap, "C17");
            return;
        }
        let pk = match decode(f, v5, self.w) {
            Ok(p) => p,
            Err(why) => {
                if self.ver == Ver::Und && !(errored && !delivered) {
                    // level 4/5 but malformed: whatever it does, it must not be silent
                    self.ver = if v5 { Ver::V5 } else { Ver::V3 };
                }
                if delivered || !errored {
                    if !errored && !delivered {
                        // e.g. a QoS 2 duplicate with an uncertain field
                        if !(ty == 3 && e.sends()) {
                            v.push((C05, format!("an inbound frame ({why}) produced neither a packet nor an error")));
                        }
                    }
                    self.taint(e, cx);
                } else {
                    if self.ver == Ver::Und {
                        self.corner = Some("malformed first CONNECT on an undetermined server");
                    }
                    let unanswered = e.err().is_some_and(|t| t.contains("NotAllowedToSend"));
                    let dup = !strict && ty == 3 && (f[0] >> 1) & 3 == 2 && (unanswered || decode_lax(f, v5, self.w).is_ok());
                    self.reject("a malformed frame", C05, None, e, cx, v);
                    if dup {
                        // the error may concern the answer to a QoS 2 duplicate, which was taken in
                        self.taint(e, cx);
                    }
                }
                return;
            }
        };
        match &pk {
            Pk::Connect(cn) => self.in_connect(cn, &pk, v5, delivered, e, cx, v),
            Pk::Connack { sp, rc, props } => self.in_connack(*sp, *rc, props, &pk, delivered, e, cx, v),
            Pk::Publish(p) => self.in_publish(p, delivered, errored, e, cx, v),
            Pk::Ack { k, pid, rc, .. } => self.in_ack(*k, *pid, *rc, &pk, delivered, errored, e, cx, v),
            Pk::Suback { pid, .. } | Pk::Unsuback { pid, .. } => {
                let want = if ty == 9 { Own::Sub } else { Own::Unsub };
                if self.ids.get(pid) != Some(&want) {
                    self.reject(&format!("{} {pid}, which matches nothing in flight,", pk.name()), C06 | C08, None, e, cx, v);
                    return;
                }
                if self.deliver_or(&pk, strict, C08 | C05, e, cx, v) {
                    cx.rel_must.insert(*pid);
                }
            }
            Pk::Pingreq => {
                if self.deliver_or(&pk, strict, C05, e, cx, v)
                    && self.opt[O_AUTOPING as usize]
                    && !self.as_client
                    && self.st == St::Connected
                    && self.fits(2)
                {
                    self.auto(&[Pk::Pingresp], strict, C05 | C01, e, cx, v);
                }
            }
            Pk::Pingresp => {
                if self.deliver_or(&pk, strict && self.role != Role::Any, C05, e, cx, v) {
                    cx.pingresp = true;
                }
            }
            Pk::Disconnect { .. } => {
                if self.deliver_or(&pk, strict && self.role != Role::Any, C05, e, cx, v) {
                    self.peer_disc = true;
                    cx.disc_recv = true;
                }
            }
            _ => {
                self.deliver_or(&pk, strict, C05, e, cx, v);
            }
        }
    }

    /// After the library accepted something the reference is not certain about.
    fn taint(&mut self, e: &mut Evs, cx: &mut Cx) {
        self.tainted = true;
        self.taint_conn = true;
        e.used.iter_mut().for_each(|x| *x = true);
        cx.err_ok = true;
        cx.any_send = true;
        if e.closes() {
            self.closing = true;
        }
        if self.ver == Ver::Und {
            self.corner = Some("accepted a frame the reference decoder is not certain about");
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn tainted_frame(&mut self, f: &[u8], v5: bool, delivered: bool, errored: bool, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        if !delivered && !errored && !(f[0] >> 4 == 3 && (f[0] >> 1) & 3 == 2) {
            v.push((C05, "an inbound frame produced neither a packet nor an error".into()));
        }
        let _ = v5;
        let was = self.taint_conn;
        self.taint(e, cx);
        // a QoS 2 PUBLISH that is not delivered may have been taken as a duplicate
        if !delivered && !(f[0] >> 4 == 3 && (f[0] >> 1) & 3 == 2) {
            self.taint_conn = was;
        }
    }

    /// The packet has to be delivered (strict) or may be refused with an error; returns whether it was delivered.
    fn deliver_or(&mut self, pk: &Pk, strict: bool, mask: u32, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) -> bool {
        let mut topic_bad = None;
        let i = e.take(|x| matches!(x, Ev::Recv { .. }));
        match i {
            Some(i) => {
                if let Ev::Recv { pk: q, bytes, topic, .. } = &e.v[i] {
                    let same = match (pk, q) {
                        (Pk::Publish(a), Some(Pk::Publish(b))) => {
                            let mut b2 = b.clone();
                            if a.topic.is_empty() {
                                b2.topic = String::new();
                                let want = a.alias().and_then(|x| self.arecv.get(&x));
                                if topic.as_ref() != want {
                                    topic_bad = Some(format!("delivered with topic {topic:?}, bound is {want:?}"));
                                }
                            } else if topic.as_ref() != Some(&a.topic) {
                                topic_bad = Some(format!("delivered with topic {topic:?} instead of {:?}", a.topic));
                            }
                            *a == b2
                        }
                        (a, Some(b)) => a == b,
                        _ => false,
                    };
                    if !same {
                        v.push((
                            mask | C05 | C01 | C09,
                            format!("{} was delivered as {} ({})", showpk(pk), q.as_ref().map(showpk).unwrap_or_default(), hex(bytes)),
                        ));
                    }
                    if let Some(t) = topic_bad {
                        v.push((C13 | C01, t));
                    }
                }
                cx.accepted_in = true;
                true
            }
            None => {
                let why = e.err().map(blame).unwrap_or(0);
                let err = e.take_all(|x| matches!(x, Ev::Error(_))) > 0;
                if !err {
                    v.push((mask | C05, format!("{} was neither delivered nor reported", showpk(pk))));
                } else if strict {
                    v.push((mask | why | C01, format!("{} was rejected although it is legal here: {}", showpk(pk), showevs(e.v))));
                }
                if e.take_all(|x| matches!(x, Ev::Close)) > 0 {
                    self.closing = true;
                }
                self.disc_answer(e);
                cx.err_ok = true;
                cx.rejected = true;
                false
            }
        }
    }

    /// Automatic response expected: exactly one of `alts`, requested for sending, if it fits.
    fn auto(&mut self, alts: &[Pk], strict: bool, mask: u32, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) -> Option<Pk> {
        let v5 = self.v5();
        let w = self.w;
        let min = alts.iter().map(|a| a.encode(v5, w).len()).min().unwrap_or(0);
        let i = e.take(|x| match x {
            Ev::Send { pk: Some(q), .. } => alts.iter().any(|a| same_ack(a, q)),
            _ => false,
        });
        match i {
            Some(i) => {
                if let Ev::Send { pk: Some(q), rel, .. } = &e.v[i] {
                    if rel.is_some() {
                        v.push((C08, format!("automatic {} asks for a release on send error", q.name())));
                    }
                    return Some(q.clone());
                }
                None
            }
            None => {
                if self.fits(min) {
                    if strict {
                        v.push((mask, format!("the automatic {} was not requested for sending", showpk(&alts[0]))));
                    }
                } else {
                    cx.err_ok = true;
                }
                None
            }
        }
    }

    /// a second CONNECT/CONNACK on an established connection is a protocol error by name
    fn named_protocol_error(&self, what: &str, e: &Evs, v: &mut Vec<Viol>) {
        if self.strict() && !e.err().is_none_or(|t| t.contains("ProtocolError")) {
            v.push((C17, format!("a {what} on an established connection is reported as {}", e.err().unwrap_or(""))));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn in_connect(&mut self, cn: &Connect, pk: &Pk, v5: bool, delivered: bool, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        if self.st != St::Disc {
            let snap = self.clone();
            self.named_protocol_error("CONNECT", e, v);
            self.reject("a CONNECT on an established connection", C17, None, e, cx, v);
            cx.untouched(&snap, "C17");
            return;
        }
        if self.closing {
            if delivered {
                self.corner = Some("CONNECT delivered before the close was reported");
            }
            e.used.iter_mut().for_each(|x| *x = true);
            cx.err_ok = true;
            return;
        }
        if self.ver == Ver::Und {
            self.ver = if v5 { Ver::V5 } else { Ver::V3 };
        }
        if !self.deliver_or(pk, true, C05 | C10 | C17, e, cx, v) {
            return;
        }
        self.start_connecting(false);
        if cn.clean {
            self.new_session();
            self.session_started = true;
            cx.store_empty = true;
            cx.wholesale = true;
        }
        self.recv_to = cn.ka as u64 * 1500;
        if v5 {
            self.asend_max = prop_u32(&cn.props, 34).unwrap_or(0) as u16;
            self.send_max = prop_u32(&cn.props, 33).map(|x| x as u16);
            self.mps_send = prop_u32(&cn.props, 39);
            self.persistent = prop_u32(&cn.props, 17).is_some_and(|x| x > 0);
        } else {
            self.persistent = !cn.clean;
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn in_connack(&mut self, sp: bool, rc: u8, props: &Props, pk: &Pk, delivered: bool, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let expected = self.st == St::Connecting && self.as_client && !self.closing;
        if !expected {
            if delivered && (self.st == St::Disc || (self.closing && self.st == St::Connecting)) {
                self.corner = Some("CONNACK delivered to an object that does not wait for one, or is closing");
                e.used.iter_mut().for_each(|x| *x = true);
                return;
            }
            let snap = self.clone();
            self.named_protocol_error("CONNACK", e, v);
            self.reject("an unexpected CONNACK", C17, None, e, cx, v);
            cx.untouched(&snap, "C17");
            return;
        }
        if !self.deliver_or(pk, true, C05 | C17 | C10, e, cx, v) {
            return;
        }
        if rc != 0 {
            self.closing = true;
            return;
        }
        self.st = St::Connected;
        self.n_conn += 1;
        if self.v5() {
            self.asend_max = prop_u32(props, 34).unwrap_or(0) as u16;
            self.send_max = prop_u32(props, 33).map(|x| x as u16);
            self.mps_send = prop_u32(props, 39);
            if let Some(x) = prop_u32(props, 19) {
                self.ka_srv = Some(x as u64 * 1000);
                if x == 0 && self.user.is_none() {
                    cx.no_send_armed = true;
                }
            }
            if let Some(x) = prop_u32(props, 17) {
                self.persistent = x != 0;
            }
        }
        self.resume(sp, e, cx, v);
    }

    fn in_publish(&mut self, p: &Publish, delivered: bool, errored: bool, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let strict = self.strict();
        let pk = Pk::Publish(p.clone());
        if self.v5() {
            let excess = p.qos > 0
                && self.recv_max.is_some_and(|m| !self.inb.contains(&p.pid) && self.inb.len() >= m as usize);
            let bad_alias = match p.alias() {
                None => p.topic.is_empty(),
                Some(a) => a == 0 || a > self.arecv_max || (p.topic.is_empty() && !self.arecv.contains_key(&a)),
            };
            let follow = !strict && delivered;
            if (excess || bad_alias) && !follow {
                let snap = self.clone();
                if excess && bad_alias {
                    self.reject("an excess PUBLISH with an invalid alias", C12 | C13, None, e, cx, v);
                } else if excess {
                    self.reject("a PUBLISH over our Receive Maximum", C12, Some(0x93), e, cx, v);
                } else {
                    self.reject("a PUBLISH with an invalid topic alias", C13, Some(0x94), e, cx, v);
                }
                cx.untouched(&snap, "rejected PUBLISH");
                return;
            }
            if (excess || bad_alias) && follow {
                v.push((
                    if excess { C12 } else { C13 },
                    format!("{} was delivered although it must be rejected", showpk(&pk)),
                ));
            }
        }
        let dup = p.qos == 2 && self.handled.contains(&p.pid);
        // a legal PUBLISH: delivered, or (QoS 2 duplicate) answered only
        if !strict && !delivered && errored && !dup {
            // refused outside an established connection: allowed, it was reported
            self.deliver_or(&pk, false, C05, e, cx, v);
            return;
        }
        if p.qos > 0 {
            self.inb.insert(p.pid);
        }
        // order matters: an alias with a topic binds before delivery
        if let Some(a) = p.alias() {
            if !p.topic.is_empty() {
                self.arecv.insert(a, p.topic.clone());
            }
        }
        let auto = self.opt[O_AUTOPUB as usize] && self.st == St::Connected;
        if dup {
            if delivered {
                v.push((C07 | C16 | C01, format!("QoS 2 PUBLISH {} was notified again before its PUBREL", p.pid)));
                e.take_all(|x| matches!(x, Ev::Recv { .. }));
            }
            if self.st == St::Connected {
                self.auto(&[ack(5, p.pid)], strict, C07 | C01, e, cx, v);
            } else {
                cx.err_ok = true;
            }
            cx.accepted_in = strict;
            if !strict {
                cx.err_ok = true;
            }
            return;
        }
        let m = match p.qos {
            2 => C07 | C05,
            _ => C05,
        };
        let ok = self.deliver_or(&pk, strict, m | C13, e, cx, v);
        if !ok {
            return;
        }
        match p.qos {
            1 if auto => {
                if self.auto(&[ack(4, p.pid)], strict, C05 | C01, e, cx, v).is_some() {
                    self.inb.remove(&p.pid);
                }
            }
            2 => {
                self.handled.insert(p.pid);
                if self.st == St::Connecting {
                    self.handled_conn.insert(p.pid);
                }
                if auto {
                    self.auto(&[ack(5, p.pid)], strict, C07 | C01, e, cx, v);
                }
            }
            _ => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn in_ack(&mut self, k: u8, pid: u32, rc: Option<u8>, pk: &Pk, delivered: bool, _errored: bool, e: &mut Evs, cx: &mut Cx, v: &mut Vec<Viol>) {
        let strict = self.strict();
        let own = self.ids.get(&pid).copied();
        let auto = self.opt[O_AUTOPUB as usize] && self.st == St::Connected;
        let v5 = self.v5();
        match k {
            4 | 5 | 7 => {
                let want = match k {
                    4 => Own::P1,
                    5 => Own::P2Rec,
                    _ => Own::P2Comp,
                };
                if own != Some(want) {
                    let snap = self.clone();
                    if k == 5 && matches!(own, Some(Own::P2Gap | Own::P2Comp)) {
                        // a second PUBREC of the same exchange: reported or tolerated, but it must not end it
                        if delivered {
                            e.take_all(|x| matches!(x, Ev::Recv { .. }));
                            cx.any_send = true;
                            cx.err_ok = true;
                            cx.accepted_in = true;
                        } else {
                            self.reject("a repeated PUBREC", C06, None, e, cx, v);
                        }
                        cx.untouched(&snap, "repeated PUBREC");
                        return;
                    }
                    self.reject(&format!("{} {pid}, which matches nothing in flight ({own:?}),", pk.name()), C06 | C08 | C12, None, e, cx, v);
                    cx.untouched(&snap, "unmatched acknowledgement");
                    return;
                }
                if !self.deliver_or(pk, strict, C06 | C16 | C08, e, cx, v) {
                    return;
                }
                match k {
                    4 => {
                        self.erase(pid, true);
                        cx.rel_must.insert(pid);
                    }
                    7 => {
                        self.erase(pid, false);
                        cx.rel_must.insert(pid);
                    }
                    _ => {
                        self.erase(pid, true);
                        if v5 && rc.is_some_and(|r| r >= 0x80) {
                            cx.rel_must.insert(pid);
                        } else {
                            self.ids.insert(pid, Own::P2Gap);
                            if auto {
                                if let Some(q) = self.auto(&[ack(6, pid)], strict, C06 | C01, e, cx, v) {
                                    self.pubrel_out(pid, &q);
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                // PUBREL
                let known = self.handled.contains(&pid);
                if !self.deliver_or(pk, strict, C07 | C05, e, cx, v) {
                    return;
                }
                self.handled.remove(&pid);
                self.handled_conn.remove(&pid);
                if auto {
                    let mut alts = vec![ack(7, pid)];
                    if v5 && !known {
                        alts = vec![ack(7, pid), Pk::Ack { k: 7, pid, rc: Some(0x92), props: None }];
                        let big = alts[1].encode(true, self.w).len();
                        if !self.fits(big) && self.fits(big - 1) {
                            // the 0x92 form does not fit
                            if e.err().is_some() {
                                cx.err_ok = true;
                                return;
                            }
                        }
                    }
                    if self.auto(&alts, strict, C07 | C01, e, cx, v).is_some() {
                        self.inb.remove(&pid);
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- the end of every call

    #[allow(clippy::too_many_arguments)]
    fn finish(&mut self, call: &Call, evs: &[Ev], e: &mut Evs, cx: &mut Cx, before: [Option<u64>; 3], post: &Post, v: &mut Vec<Viol>) {
        // ---- releases
        let mut seen = BTreeSet::new();
        for x in evs {
            if let Ev::Released(i) = x {
                if !seen.insert(*i) {
                    v.push((C08, format!("the release of {i} is announced twice in one list")));
                    continue;
                }
                if !self.tainted && self.corner.is_none() {
                    if !cx.rel_must.contains(i) && !cx.rel_may.contains(i) {
                        let o = self.ids.get(i);
                        let m = match o {
                            Some(Own::P1 | Own::P2Rec | Own::P2Gap | Own::P2Comp) => C06 | C16 | C12,
                            _ => 0,
                        };
                        v.push((C08 | m, format!("unexpected release of {i}, which is {o:?}")));
                    }
                }
            }
        }
        if !self.tainted && self.corner.is_none() {
            for i in &cx.rel_must {
                if !seen.contains(i) {
                    let m = match call {
                        Call::Recv(..) => C06 | C12 | C14,
                        Call::Close => C10,
                        Call::Send { .. } => C11,
                        _ => 0,
                    };
                    v.push((C08 | m, format!("identifier {i} ({:?}) was not announced as released", self.ids.get(i))));
                }
            }
        }
        for i in seen.iter().chain(cx.rel_must.iter()) {
            self.free(*i);
        }
        // ---- leftovers
        if !self.tainted && self.corner.is_none() {
            for (i, x) in evs.iter().enumerate() {
                if e.used[i] {
                    continue;
                }
                match x {
                    Ev::Send { pk, .. } if !cx.any_send => {
                        let m = match pk {
                            Some(Pk::Publish(_)) => C06 | C07 | C10 | C16 | C12,
                            Some(Pk::Ack { .. }) => C06 | C07 | C10 | C16 | C01,
                            Some(Pk::Pingresp) => C17,
                            _ => 0,
                        };
                        v.push((m | C11 | C01, format!("nothing explains the request to send {}", x.show())))
                    }
                    Ev::Recv { .. } => v.push((C05 | C07 | C17, format!("nothing explains {}", x.show()))),
                    Ev::Error(t) if !cx.err_ok => {
                        let m = match call {
                            Call::Recv(..) => C01 | C05 | blame(t),
                            _ => C11 | blame(t),
                        };
                        v.push((m, format!("error {t} although nothing is wrong")))
                    }
                    Ev::Close if !cx.rejected => {
                        v.push((C05 | C15 | C01 | C19, "a close request although nothing is wrong".to_string()));
                        self.closing = true;
                    }
                    _ => {}
                }
            }
        }
        // ---- sizes (the limit in force after the call: CONNACK/CONNECT set it before anything else is sent)
        for x in evs {
            if self.tainted || self.corner.is_some() {
                break;
            }
            if let Ev::Send { bytes, pk, v5: true, .. } = x {
                let lim = match pk {
                    Some(Pk::Connect(_)) => None,
                    _ => self.mps_send,
                };
                if lim.is_some_and(|m| bytes.len() > m as usize) {
                    v.push((
                        C14,
                        format!("a {}-byte {} requested for sending, the peer allows {}", bytes.len(), x.show(), lim.unwrap()),
                    ));
                }
            }
        }
        self.timers(call, evs, cx, before, v);
        // ---- getters
        if self.tainted || self.corner.is_some() {
            return;
        }
        match &post.stored {
            Err(m) => v.push((ALL, format!("get_stored_packets panicked: {m}"))),
            Ok(s) => {
                let want: Vec<Vec<u8>> = self.store.iter().map(|p| p.encode(self.v5(), self.w)).collect();
                if let Some(p) = &cx.must_be_stored {
                    let b = p.encode(self.v5(), self.w);
                    if !s.contains(&b) {
                        v.push((C06 | C11, format!("{} was accepted but neither sent nor stored", showpk(p))));
                    } else {
                        self.store.push(p.clone());
                    }
                } else if (self.persistent || cx.store_empty) && *s != want {
                    let mut m = C06 | C16;
                    if cx.store_empty {
                        m |= C10;
                    }
                    if let Some(u) = &cx.untouched {
                        if u.contains("C17") {
                            m |= C17;
                        }
                    }
                    if matches!(call, Call::Recv(..) | Call::Close) && self.persistent {
                        m |= C01;
                    }
                    for (a, b) in s.iter().zip(want.iter()) {
                        if a != b && a.first().map(|x| x >> 4) == Some(3) {
                            m |= C13;
                        }
                    }
                    v.push((m, format!("the store holds {:?}, expected {:?}", hexes(s), hexes(&want))));
                }
            }
        }
        match &post.handled {
            Err(m) => v.push((ALL, format!("get_qos2_publish_handled panicked: {m}"))),
            Ok(h) => {
                if *h != self.handled {
                    let mut m = C07 | C16;
                    if self.handled.is_empty() {
                        m |= C10;
                    }
                    if cx.untouched.as_deref().is_some_and(|u| u.contains("C17")) {
                        m |= C17;
                    }
                    v.push((m, format!("handled QoS 2 identifiers are {h:?}, expected {:?}", self.handled)));
                }
            }
        }
        match &post.vacancy {
            Err(m) => v.push((ALL, format!("get_receive_maximum_vacancy_for_send panicked: {m}"))),
            Ok(got) => {
                if self.st == St::Connected && !self.closing {
                    if let Some(m) = self.send_max {
                        let hi = (m as usize).saturating_sub(self.inflight_lo());
                        let lo = (m as usize).saturating_sub(self.inflight());
                        match got {
                            Some(x) if (lo..=hi).contains(&(*x as usize)) => {}
                            _ => v.push((
                                C12 | C01,
                                format!("vacancy is {got:?}; Receive Maximum {m}, {} exchanges incomplete", self.inflight()),
                            )),
                        }
                    } else if let Some(x) = got {
                        if *x as usize != 65535usize.saturating_sub(self.inflight()) {
                            v.push((C12 | C10, format!("vacancy {x} although the peer announced no Receive Maximum")));
                        }
                    }
                }
                if self.st == St::Disc && !self.closing && got.is_some_and(|x| x != 65535) {
                    v.push((C10 | C12, format!("vacancy {got:?} without a connection")));
                }
            }
        }
        if post.ver != self.ver {
            v.push((C17, format!("protocol version is {:?}, expected {:?}", post.ver, self.ver)));
            self.corner = Some("version diverged");
        }
    }

    fn timers(&mut self, call: &Call, evs: &[Ev], cx: &Cx, before: [Option<u64>; 3], v: &mut Vec<Viol>) {
        let _ = before;
        if self.corner.is_some() {
            return;
        }
        let live = self.st != St::Disc;
        let mut reset = [false; 3];
        let mut sends = 0;
        for x in evs {
            match x {
                Ev::Reset(k, d) => {
                    let i = *k as usize;
                    self.armed[i] = Some(*d);
                    self.everarmed[i] = true;
                    reset[i] = true;
                    if *k == T_SEND {
                        self.stale_send_ok = false;
                    }
                    if !live && !self.taint_conn {
                        v.push((C15, format!("{} armed while disconnected", TNAME[i])));
                    }
                    if self.tainted {
                        continue;
                    }
                    let (want, ok) = match *k {
                        T_SEND => (self.interval(), self.as_client),
                        T_RECV => (self.recv_to, !self.as_client),
                        _ => (self.resp_to, true),
                    };
                    if *d != want || *d == 0 || !ok {
                        v.push((
                            C15 | C10,
                            format!("{} armed for {d} ms, expected {want} ms (acting as client: {})", TNAME[i], self.as_client),
                        ));
                    }
                }
                Ev::Cancel(k) => {
                    let i = *k as usize;
                    if self.armed[i].is_none() {
                        v.push((C15, format!("cancel of {} which is not armed", TNAME[i])));
                    }
                    self.armed[i] = None;
                    if *k == T_SEND {
                        self.stale_send_ok = false;
                    }
                }
                Ev::Send { pk, .. } => {
                    if !matches!(pk, Some(Pk::Disconnect { .. })) {
                        sends += 1;
                    }
                }
                _ => {}
            }
        }
        let disc_sent = evs.iter().any(|x| matches!(x, Ev::Send { pk: Some(Pk::Disconnect { .. }), .. }));
        if disc_sent || matches!(call, Call::Close) {
            for i in 0..3 {
                if self.armed[i].is_some() {
                    v.push((
                        C15 | C10,
                        format!(
                            "{} is still armed after {}",
                            TNAME[i],
                            if disc_sent { "DISCONNECT was sent" } else { "the close was reported" }
                        ),
                    ));
                    self.armed[i] = None;
                }
            }
        }
        if self.tainted || self.corner.is_some() {
            return;
        }
        let up = live && !self.closing && !self.peer_disc;
        if up && self.as_client {
            let want = self.interval();
            if sends > 0 || cx.want_send_reset {
                if want > 0 && !(reset[0] && self.armed[0] == Some(want)) {
                    v.push((C15, format!("the PINGREQ timer was not re-armed for {want} ms after a packet was sent")));
                }
                if want == 0 && self.armed[0].is_some() && !self.stale_send_ok {
                    v.push((C15, "the PINGREQ timer is armed although the interval is 0".into()));
                }
            }
        }
        if cx.no_send_armed && self.armed[0].is_some() {
            v.push((C15, "the PINGREQ timer stays armed although it was disabled".into()));
        }
        if up && !self.as_client {
            if ((cx.accepted_in && !cx.pingresp && !cx.disc_recv) || cx.want_recv_reset)
                && self.recv_to > 0
                && !(reset[1] && self.armed[1] == Some(self.recv_to))
            {
                v.push((C15, format!("the keep-alive timer was not re-armed for {} ms after a packet was accepted", self.recv_to)));
            }
            if self.recv_to == 0 && self.armed[1].is_some() {
                v.push((C15, "the keep-alive timer is armed although keep-alive is 0".into()));
            }
        }
        if up && cx.pingreq_sent && self.resp_to > 0 && !(reset[2] && self.armed[2].is_some()) {
            v.push((C15, "a PINGREQ was sent and the response timer was not armed".into()));
        }
        if up && cx.pingreq_sent && self.resp_to == 0 && reset[2] {
            v.push((C15, "the response timer was armed although none is configured".into()));
        }
        if cx.pingresp && self.armed[2].is_some() {
            v.push((C15, "PINGRESP did not cancel the response timer".into()));
        }
    }

    /// coverage: an abstraction of the state
    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.role as u8, self.w, self.ver as u8, self.st, self.as_client, self.closing, self.peer_disc).hash(&mut h);
        (self.opt, self.user.is_some(), self.resp_to > 0, self.armed.map(|x| x.is_some())).hash(&mut h);
        let mut own = [0u8; 7];
        for o in self.ids.values() {
            let x = &mut own[*o as usize];
            *x = (*x + 1).min(3);
        }
        own.hash(&mut h);
        (self.store.len().min(4), self.persistent, self.handled.len().min(3), self.inb.len().min(3)).hash(&mut h);
        (self.send_max.is_some(), self.recv_max.is_some(), self.mps_send.is_some(), self.mps_recv.is_some()).hash(&mut h);
        (self.asend_max > 0, self.asend.len().min(3), self.arecv_max > 0, self.arecv.len().min(3)).hash(&mut h);
        (self.pend.len().min(2), self.n_conn.min(4)).hash(&mut h);
        h.finish()
    }
}

fn hexes(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|x| hex(x)).collect()
}

/// an acknowledgement as the library may phrase it: an omitted reason code equals success
fn same_ack(a: &Pk, q: &Pk) -> bool {
    match (a, q) {
        (Pk::Ack { k, pid, rc, .. }, Pk::Ack { k: k2, pid: p2, rc: r2, props }) => {
            k == k2
                && pid == p2
                && rc.unwrap_or(0) == r2.unwrap_or(0)
                && props.as_ref().is_none_or(|p| p.is_empty())
        }
        _ => a == q,
    }
}

/// what one call is expected to have done besides its own packet
#[derive(Default)]
struct Cx {
    rel_must: BTreeSet<u32>,
    rel_may: BTreeSet<u32>,
    err_ok: bool,
    rejected: bool,
    any_send: bool,
    accepted_in: bool,
    pingresp: bool,
    disc_recv: bool,
    pingreq_sent: bool,
    want_send_reset: bool,
    want_recv_reset: bool,
    no_send_armed: bool,
    store_empty: bool,
    wholesale: bool,
    must_be_stored: Option<Pk>,
    untouched: Option<String>,
}
impl Cx {
    /// nothing of the session may change; the comparison with the getters after the call does the work, because the
    /// model itself did not change
    fn untouched(&mut self, _snap: &Model, what: &str) {
        self.untouched = Some(what.to_string());
    }
}
