//! A role/width-erased library connection.  Every call runs under catch_unwind; event lists are converted to
//! the simulator's own vocabulary.  Nothing in here decides anything.

use crate::libpk::*;
use crate::wire::*;
use mqtt_protocol_core::mqtt;
use mqtt::connection::{GenericConnection, GenericEvent, Sendable, TimerKind};
use mqtt::packet::GenericPacket;
use mqtt::role;
use mqtt::Version;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Role {
    Client,
    Server,
    Any,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ver {
    V3,
    V5,
    Und,
}

pub const T_SEND: u8 = 0; // PingreqSend
pub const T_RECV: u8 = 1; // PingreqRecv
pub const T_RESP: u8 = 2; // PingrespRecv

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Recv { bytes: Vec<u8>, pk: Option<Pk>, topic: Option<String>, v5: bool },
    Send { bytes: Vec<u8>, pk: Option<Pk>, rel: Option<u32>, v5: bool },
    Released(u32),
    Reset(u8, u64),
    Cancel(u8),
    Error(String),
    Close,
}

impl Ev {
    pub fn show(&self) -> String {
        match self {
            Ev::Recv { bytes, pk, topic, .. } => match pk {
                Some(p) => format!("Received({}{})", showpk(p), topic.as_ref().map(|t| format!(" topic={t}")).unwrap_or_default()),
                None => format!("Received(? {})", hex(bytes)),
            },
            Ev::Send { bytes, pk, rel, .. } => match pk {
                Some(p) => format!("Send({}{})", showpk(p), rel.map(|r| format!(" rel={r}")).unwrap_or_default()),
                None => format!("Send(? {})", hex(bytes)),
            },
            Ev::Released(i) => format!("Released({i})"),
            Ev::Reset(k, ms) => format!("TimerReset({},{ms})", TNAME[*k as usize]),
            Ev::Cancel(k) => format!("TimerCancel({})", TNAME[*k as usize]),
            Ev::Error(e) => format!("Error({e})"),
            Ev::Close => "Close".into(),
        }
    }
}
pub const TNAME: [&str; 3] = ["PingreqSend", "PingreqRecv", "PingrespRecv"];

pub fn showpk(p: &Pk) -> String {
    match p {
        Pk::Publish(p) => format!(
            "PUBLISH q{} id={} dup={} topic={:?} props={:?} len={}",
            p.qos, p.pid, p.dup as u8, p.topic, p.props, p.payload.len()
        ),
        Pk::Connect(c) => format!("CONNECT clean={} ka={} props={:?}", c.clean, c.ka, c.props),
        _ => format!("{} {:?}", p.name(), p),
    }
}
pub fn showevs(e: &[Ev]) -> String {
    format!("[{}]", e.iter().map(|x| x.show()).collect::<Vec<_>>().join(", "))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Send { pk: Pk, v5: bool, checked: bool },
    /// chunk handed to recv, and the cursor position within it
    Recv(Vec<u8>, usize),
    Fire(u8),
    Close,
    Interval(Option<u64>),
    PingrespTo(u64),
    Opt(u8, bool),
    Acquire,
    Register(u32),
    Release(u32),
    Erase(u32),
    RestorePackets(Vec<Vec<u8>>, bool),
    RestoreHandled(Vec<u32>),
    Regulate(Pk),
}
pub const O_OFFLINE: u8 = 0;
pub const O_AUTOPUB: u8 = 1;
pub const O_AUTOPING: u8 = 2;
pub const O_AUTOMAP: u8 = 3;
pub const O_AUTOREPL: u8 = 4;
pub const ONAME: [&str; 5] = ["offline_publish", "auto_pub_response", "auto_ping_response", "auto_map", "auto_replace"];

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    None,
    Consumed(usize),
    Id(Result<u32, String>),
    Unit(Result<(), String>),
    Bytes(Result<Vec<u8>, String>),
    /// the library's builder refuses the packet / the type is not Sendable for this role: no call was made
    NotMade,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub evs: Vec<Ev>,
    pub ret: Ret,
    pub panic: Option<String>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
        } else {
            old(info);
        }
    }));
}

/// Run library code; a panic comes back as Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub trait Ep {
    fn call(&mut self, c: &Call) -> Out;
    fn stored(&self) -> Result<Vec<Vec<u8>>, String>;
    fn handled(&self) -> Result<BTreeSet<u32>, String>;
    fn vacancy(&self) -> Result<Option<u16>, String>;
    fn version(&self) -> Ver;
}

fn kind(k: u8) -> TimerKind {
    match k {
        T_SEND => TimerKind::PingreqSend,
        T_RECV => TimerKind::PingreqRecv,
        _ => TimerKind::PingrespRecv,
    }
}
fn unkind(k: TimerKind) -> u8 {
    match k {
        TimerKind::PingreqSend => T_SEND,
        TimerKind::PingreqRecv => T_RECV,
        TimerKind::PingrespRecv => T_RESP,
    }
}

fn conv<P: Pid>(evs: Vec<GenericEvent<P>>) -> Vec<Ev> {
    let mut out: Vec<Ev> = evs
        .into_iter()
        .map(|e| match e {
            GenericEvent::NotifyPacketReceived(p) => {
                let bytes = bytes_of(&p);
                let v5 = is_v5(&p);
                let pk = decode(&bytes, v5, P::W).ok();
                let topic = match &p {
                    GenericPacket::V3_1_1Publish(p) => Some(p.topic_name().to_string()),
                    GenericPacket::V5_0Publish(p) => Some(p.topic_name().to_string()),
                    _ => None,
                };
                Ev::Recv { bytes, pk, topic, v5 }
            }
            GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error } => {
                let bytes = bytes_of(&packet);
                let v5 = is_v5(&packet);
                let pk = decode(&bytes, v5, P::W).ok();
                Ev::Send { bytes, pk, rel: release_packet_id_if_send_error.map(|x| x.to()), v5 }
            }
            GenericEvent::NotifyPacketIdReleased(p) => Ev::Released(p.to()),
            GenericEvent::RequestTimerReset { kind, duration_ms } => Ev::Reset(unkind(kind), duration_ms),
            GenericEvent::RequestTimerCancel(k) => Ev::Cancel(unkind(k)),
            GenericEvent::NotifyError(e) => Ev::Error(format!("{e:?}")),
            GenericEvent::RequestClose => Ev::Close,
        })
        .collect();
    // notify_closed releases ids in the iteration order of randomly seeded hash sets: canonicalise
    let mut ids: Vec<u32> = out.iter().filter_map(|e| if let Ev::Released(i) = e { Some(*i) } else { None }).collect();
    ids.sort();
    let mut it = ids.into_iter();
    for e in out.iter_mut() {
        if let Ev::Released(i) = e {
            *i = it.next().unwrap();
        }
    }
    out
}

pub struct Conn<R: role::RoleType, P: Pid> {
    c: GenericConnection<R, P>,
}

/// autoref specialisation: `Yes` applies only where the type is Sendable for the role
struct W<'a, T, R: role::RoleType, P: Pid> {
    t: Option<T>,
    c: &'a mut GenericConnection<R, P>,
}
trait Yes<P: Pid> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>>;
}
impl<T, R, P> Yes<P> for W<'_, T, R, P>
where
    R: role::RoleType,
    P: Pid,
    T: Sendable<R, P>,
{
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>> {
        Some(self.c.checked_send(self.t.take().unwrap()))
    }
}
trait No<P: Pid> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>>;
}
impl<T, R: role::RoleType, P: Pid> No<P> for &mut W<'_, T, R, P> {
    fn go(&mut self) -> Option<Vec<GenericEvent<P>>> {
        None
    }
}


macro_rules! arms {
    ($r:ident, $p:ty; $($v:ident),*) => {
        impl Conn<role::$r, $p> {
            fn checked(&mut self, g: GenericPacket<$p>) -> Option<Vec<GenericEvent<$p>>> {
                match g { $( GenericPacket::$v(p) => {
                    let mut w = W { t: Some(p), c: &mut self.c };
                    #[allow(unused_mut)]
                    let mut m = &mut w;
                    m.go()
                } )* }
            }
        }
    };
}

macro_rules! epimpl {
    ($r:ident, $p:ty) => {
        arms!($r, $p;
            V3_1_1Connect, V3_1_1Connack, V3_1_1Subscribe, V3_1_1Suback, V3_1_1Unsubscribe, V3_1_1Unsuback,
            V3_1_1Publish, V3_1_1Puback, V3_1_1Pubrec, V3_1_1Pubrel, V3_1_1Pubcomp, V3_1_1Disconnect,
            V3_1_1Pingreq, V3_1_1Pingresp, V5_0Connect, V5_0Connack, V5_0Subscribe, V5_0Suback,
            V5_0Unsubscribe, V5_0Unsuback, V5_0Publish, V5_0Puback, V5_0Pubrec, V5_0Pubrel, V5_0Pubcomp,
            V5_0Disconnect, V5_0Pingreq, V5_0Pingresp, V5_0Auth);

        impl Conn<role::$r, $p> {
            fn call_inner(&mut self, c: &Call) -> (Vec<Ev>, Ret) {
                let con = &mut self.c;
                match c {
                    Call::Send { pk, v5, checked } => {
                        let Some(g) = <$p as Pid>::build(pk, *v5) else { return (vec![], Ret::NotMade) };
                        if *checked {
                            match self.checked(g) {
                                Some(e) => (conv(e), Ret::None),
                                None => (vec![], Ret::NotMade),
                            }
                        } else if bytes_of(&g).len() % 2 == 0 {
                            // the run-time checked packet enum is itself Sendable
                            (conv(con.checked_send(g)), Ret::None)
                        } else {
                            (conv(con.send(g)), Ret::None)
                        }
                    }
                    Call::Recv(b, pos) => {
                        let mut cur = mqtt::common::Cursor::new(&b[..]);
                        cur.set_position(*pos as u64);
                        let e = con.recv(&mut cur);
                        (conv(e), Ret::Consumed((cur.position() as usize).wrapping_sub(*pos)))
                    }
                    Call::Fire(k) => (conv(con.notify_timer_fired(kind(*k))), Ret::None),
                    Call::Close => (conv(con.notify_closed()), Ret::None),
                    Call::Interval(v) => (conv(con.set_pingreq_send_interval(*v)), Ret::None),
                    Call::PingrespTo(v) => {
                        con.set_pingresp_recv_timeout(*v);
                        (vec![], Ret::None)
                    }
                    Call::Opt(o, v) => {
                        match *o {
                            O_OFFLINE => con.set_offline_publish(*v),
                            O_AUTOPUB => con.set_auto_pub_response(*v),
                            O_AUTOPING => con.set_auto_ping_response(*v),
                            O_AUTOMAP => con.set_auto_map_topic_alias_send(*v),
                            _ => con.set_auto_replace_topic_alias_send(*v),
                        }
                        (vec![], Ret::None)
                    }
                    Call::Acquire => {
                        (vec![], Ret::Id(con.acquire_packet_id().map(|x| x.to()).map_err(|e| format!("{e:?}"))))
                    }
                    Call::Register(i) => (
                        vec![],
                        Ret::Unit(con.register_packet_id(<$p as Pid>::of(*i)).map(|_| ()).map_err(|e| format!("{e:?}"))),
                    ),
                    Call::Release(i) => (conv(con.release_packet_id(<$p as Pid>::of(*i))), Ret::None),
                    Call::Erase(i) => (conv(con.erase_stored_publish(<$p as Pid>::of(*i))), Ret::None),
                    Call::RestorePackets(l, v5) => {
                        let mut v = vec![];
                        for b in l {
                            let Some(Ok((g, _, _))) = lib_parse::<$p>(b, *v5) else {
                                return (vec![], Ret::Unit(Err(format!("stored packet does not parse: {}", hex(b)))));
                            };
                            let Some(s) = to_store(g) else {
                                return (vec![], Ret::Unit(Err(format!("not a store packet: {}", hex(b)))));
                            };
                            v.push(s);
                        }
                        con.restore_packets(v);
                        (vec![], Ret::None)
                    }
                    Call::RestoreHandled(l) => {
                        con.restore_qos2_publish_handled(l.iter().map(|x| <$p as Pid>::of(*x)).collect());
                        (vec![], Ret::None)
                    }
                    Call::Regulate(pk) => {
                        let Some(GenericPacket::V5_0Publish(p)) = <$p as Pid>::build(pk, true) else {
                            return (vec![], Ret::NotMade);
                        };
                        (
                            vec![],
                            Ret::Bytes(
                                con.regulate_for_store(p)
                                    .map(|p| bytes_of(&GenericPacket::<$p>::from(p)))
                                    .map_err(|e| format!("{e:?}")),
                            ),
                        )
                    }
                }
            }
        }
        impl Ep for Conn<role::$r, $p> {
            fn call(&mut self, c: &Call) -> Out {
                match guard(|| self.call_inner(c)) {
                    Ok((evs, ret)) => Out { evs, ret, panic: None },
                    Err(m) => Out { evs: vec![], ret: Ret::None, panic: Some(m) },
                }
            }
            fn stored(&self) -> Result<Vec<Vec<u8>>, String> {
                guard(|| {
                    self.c
                        .get_stored_packets()
                        .into_iter()
                        .map(|s| bytes_of(&GenericPacket::<$p>::from(s)))
                        .collect()
                })
            }
            fn handled(&self) -> Result<BTreeSet<u32>, String> {
                guard(|| self.c.get_qos2_publish_handled().iter().map(|x| x.to()).collect())
            }
            fn vacancy(&self) -> Result<Option<u16>, String> {
                guard(|| self.c.get_receive_maximum_vacancy_for_send())
            }
            fn version(&self) -> Ver {
                match self.c.get_protocol_version() {
                    Version::V3_1_1 => Ver::V3,
                    Version::V5_0 => Ver::V5,
                    Version::Undetermined => Ver::Und,
                }
            }
        }
    };
}
epimpl!(Client, u16);
epimpl!(Client, u32);
epimpl!(Server, u16);
epimpl!(Server, u32);
epimpl!(Any, u16);
epimpl!(Any, u32);

pub fn make(r: Role, w: usize, v: Ver) -> Box<dyn Ep> {
    let v = match v {
        Ver::V3 => Version::V3_1_1,
        Ver::V5 => Version::V5_0,
        Ver::Und => Version::Undetermined,
    };
    match (r, w) {
        (Role::Client, 2) => Box::new(Conn::<role::Client, u16> { c: GenericConnection::new(v) }),
        (Role::Client, _) => Box::new(Conn::<role::Client, u32> { c: GenericConnection::new(v) }),
        (Role::Server, 2) => Box::new(Conn::<role::Server, u16> { c: GenericConnection::new(v) }),
        (Role::Server, _) => Box::new(Conn::<role::Server, u32> { c: GenericConnection::new(v) }),
        (Role::Any, 2) => Box::new(Conn::<role::Any, u16> { c: GenericConnection::new(v) }),
        (Role::Any, _) => Box::new(Conn::<role::Any, u32> { c: GenericConnection::new(v) }),
    }
}
