//! Conversion between the reference notation (`wire::Pk`) and the library's own packet objects, through the
//! library's public builders and parsers only.

use crate::wire::*;
use mqtt_protocol_core::mqtt;
use mqtt::packet::{v3_1_1, v5_0, GenericPacket, GenericPacketTrait, GenericStorePacket, Property, Qos, SubEntry, SubOpts};
use mqtt::result_code::*;

pub trait Pid: mqtt::packet::IsPacketId + Send + 'static {
    const W: usize;
    fn of(x: u32) -> Self;
    fn to(self) -> u32;
    fn build(pk: &Pk, v5: bool) -> Option<GenericPacket<Self>>;
}

pub fn qos(q: u8) -> Qos {
    match q {
        0 => Qos::AtMostOnce,
        1 => Qos::AtLeastOnce,
        _ => Qos::ExactlyOnce,
    }
}

pub fn prop(p: &(u8, PV)) -> Option<Property> {
    use mqtt::packet::*;
    macro_rules! mk {
        ($t:ident, $($v:expr),+) => {
            Some($t::new($($v),+).ok()?.into())
        };
    }
    match (p.0, &p.1) {
        (1, PV::B(x)) => mk!(PayloadFormatIndicator, if *x == 0 { PayloadFormat::Binary } else { PayloadFormat::String }),
        (2, PV::D(x)) => mk!(MessageExpiryInterval, *x),
        (3, PV::S(s)) => mk!(ContentType, s.as_str()),
        (8, PV::S(s)) => mk!(ResponseTopic, s.as_str()),
        (9, PV::X(b)) => mk!(CorrelationData, b.clone()),
        (11, PV::V(x)) => mk!(SubscriptionIdentifier, *x),
        (17, PV::D(x)) => mk!(SessionExpiryInterval, *x),
        (18, PV::S(s)) => mk!(AssignedClientIdentifier, s.as_str()),
        (19, PV::W(x)) => mk!(ServerKeepAlive, *x),
        (21, PV::S(s)) => mk!(AuthenticationMethod, s.as_str()),
        (22, PV::X(b)) => mk!(AuthenticationData, b.clone()),
        (23, PV::B(x)) => mk!(RequestProblemInformation, *x),
        (24, PV::D(x)) => mk!(WillDelayInterval, *x),
        (25, PV::B(x)) => mk!(RequestResponseInformation, *x),
        (26, PV::S(s)) => mk!(ResponseInformation, s.as_str()),
        (28, PV::S(s)) => mk!(ServerReference, s.as_str()),
        (31, PV::S(s)) => mk!(ReasonString, s.as_str()),
        (33, PV::W(x)) => mk!(ReceiveMaximum, *x),
        (34, PV::W(x)) => mk!(TopicAliasMaximum, *x),
        (35, PV::W(x)) => mk!(TopicAlias, *x),
        (36, PV::B(x)) => mk!(MaximumQos, *x),
        (37, PV::B(x)) => mk!(RetainAvailable, *x),
        (38, PV::P(a, b)) => mk!(UserProperty, a.as_str(), b.as_str()),
        (39, PV::D(x)) => mk!(MaximumPacketSize, *x),
        (40, PV::B(x)) => mk!(WildcardSubscriptionAvailable, *x),
        (41, PV::B(x)) => mk!(SubscriptionIdentifierAvailable, *x),
        (42, PV::B(x)) => mk!(SharedSubscriptionAvailable, *x),
        _ => None,
    }
}

fn props(ps: &Props) -> Option<Vec<Property>> {
    ps.iter().map(prop).collect()
}

macro_rules! imp {
    ($p:ty, $w:expr) => {
        impl Pid for $p {
            const W: usize = $w;
            fn of(x: u32) -> Self {
                x as $p
            }
            fn to(self) -> u32 {
                self as u32
            }
            fn build(pk: &Pk, v5: bool) -> Option<GenericPacket<Self>> {
                macro_rules! ackb {
                    ($v3:ident, $v5:ident, $rc:ident, $pid:expr, $c:expr, $ps:expr) => {{
                        if v5 {
                            let mut b = v5_0::$v5::<$p>::builder().packet_id(*$pid as $p);
                            if let Some(c) = $c {
                                b = b.reason_code($rc::try_from(*c).ok()?);
                            }
                            if let Some(ps) = $ps {
                                b = b.props(props(ps)?);
                            }
                            b.build().ok()?.into()
                        } else {
                            let mut b = v3_1_1::$v3::<$p>::builder().packet_id(*$pid as $p);
                            if let Some(c) = $c {
                                b = b.reason_code($rc::try_from(*c).ok()?);
                            }
                            b.build().ok()?.into()
                        }
                    }};
                }
                let g: GenericPacket<$p> = match pk {
                    Pk::Connect(c) => {
                        if v5 {
                            let mut b = v5_0::Connect::builder()
                                .client_id(c.cid.as_str())
                                .ok()?
                                .clean_start(c.clean)
                                .keep_alive(c.ka)
                                .props(props(&c.props)?);
                            if let Some(w) = &c.will {
                                b = b
                                    .will_message(w.topic.as_str(), w.payload.clone(), qos(w.qos), w.retain)
                                    .ok()?
                                    .will_props(props(&w.props)?);
                            }
                            if let Some(u) = &c.user {
                                b = b.user_name(u.as_str()).ok()?;
                            }
                            if let Some(u) = &c.pass {
                                b = b.password(u.clone()).ok()?;
                            }
                            b.build().ok()?.into()
                        } else {
                            let mut b = v3_1_1::Connect::builder()
                                .client_id(c.cid.as_str())
                                .ok()?
                                .clean_session(c.clean)
                                .keep_alive(c.ka);
                            if let Some(w) = &c.will {
                                b = b
                                    .will_message(w.topic.as_str(), w.payload.clone(), qos(w.qos), w.retain)
                                    .ok()?;
                            }
                            if let Some(u) = &c.user {
                                b = b.user_name(u.as_str()).ok()?;
                            }
                            if let Some(u) = &c.pass {
                                b = b.password(u.clone()).ok()?;
                            }
                            b.build().ok()?.into()
                        }
                    }
                    Pk::Connack { sp, rc, props: ps } => {
                        if v5 {
                            v5_0::Connack::builder()
                                .session_present(*sp)
                                .reason_code(ConnectReasonCode::try_from(*rc).ok()?)
                                .props(props(ps)?)
                                .build()
                                .ok()?
                                .into()
                        } else {
                            v3_1_1::Connack::builder()
                                .session_present(*sp)
                                .return_code(ConnectReturnCode::try_from(*rc).ok()?)
                                .build()
                                .ok()?
                                .into()
                        }
                    }
                    Pk::Publish(p) => {
                        let id: Option<$p> = if p.qos > 0 { Some(p.pid as $p) } else { None };
                        if v5 {
                            v5_0::GenericPublish::<$p>::builder()
                                .topic_name(p.topic.as_str())
                                .ok()?
                                .qos(qos(p.qos))
                                .dup(p.dup)
                                .retain(p.retain)
                                .packet_id(id)
                                .payload(p.payload.clone())
                                .props(props(&p.props)?)
                                .build()
                                .ok()?
                                .into()
                        } else {
                            v3_1_1::GenericPublish::<$p>::builder()
                                .topic_name(p.topic.as_str())
                                .ok()?
                                .qos(qos(p.qos))
                                .dup(p.dup)
                                .retain(p.retain)
                                .packet_id(id)
                                .payload(p.payload.clone())
                                .build()
                                .ok()?
                                .into()
                        }
                    }
                    Pk::Ack { k: 4, pid, rc, props: ps } => ackb!(GenericPuback, GenericPuback, PubackReasonCode, pid, rc, ps),
                    Pk::Ack { k: 5, pid, rc, props: ps } => ackb!(GenericPubrec, GenericPubrec, PubrecReasonCode, pid, rc, ps),
                    Pk::Ack { k: 6, pid, rc, props: ps } => ackb!(GenericPubrel, GenericPubrel, PubrelReasonCode, pid, rc, ps),
                    Pk::Ack { pid, rc, props: ps, .. } => ackb!(GenericPubcomp, GenericPubcomp, PubcompReasonCode, pid, rc, ps),
                    Pk::Subscribe { pid, entries, props: ps } => {
                        let en: Vec<SubEntry> = entries
                            .iter()
                            .map(|(t, o)| SubEntry::new(t.as_str(), SubOpts::from_u8(*o).ok()?).ok())
                            .collect::<Option<_>>()?;
                        if v5 {
                            v5_0::GenericSubscribe::<$p>::builder()
                                .packet_id(*pid as $p)
                                .entries(en)
                                .props(props(ps)?)
                                .build()
                                .ok()?
                                .into()
                        } else {
                            v3_1_1::GenericSubscribe::<$p>::builder()
                                .packet_id(*pid as $p)
                                .entries(en)
                                .build()
                                .ok()?
                                .into()
                        }
                    }
                    Pk::Suback { pid, codes, props: ps } => {
                        if v5 {
                            let c = codes
                                .iter()
                                .map(|c| SubackReasonCode::try_from(*c).ok())
                                .collect::<Option<Vec<_>>>()?;
                            v5_0::GenericSuback::<$p>::builder()
                                .packet_id(*pid as $p)
                                .reason_codes(c)
                                .props(props(ps)?)
                                .build()
                                .ok()?
                                .into()
                        } else {
                            let c = codes
                                .iter()
                                .map(|c| SubackReturnCode::try_from(*c).ok())
                                .collect::<Option<Vec<_>>>()?;
                            v3_1_1::GenericSuback::<$p>::builder()
                                .packet_id(*pid as $p)
                                .return_codes(c)
                                .build()
                                .ok()?
                                .into()
                        }
                    }
                    Pk::Unsubscribe { pid, topics, props: ps } => {
                        let t: Vec<&str> = topics.iter().map(|s| s.as_str()).collect();
                        if v5 {
                            v5_0::GenericUnsubscribe::<$p>::builder()
                                .packet_id(*pid as $p)
                                .entries(t)
                                .ok()?
                                .props(props(ps)?)
                                .build()
                                .ok()?
                                .into()
                        } else {
                            v3_1_1::GenericUnsubscribe::<$p>::builder()
                                .packet_id(*pid as $p)
                                .entries(t)
                                .ok()?
                                .build()
                                .ok()?
                                .into()
                        }
                    }
                    Pk::Unsuback { pid, codes, props: ps } => {
                        if v5 {
                            let c = codes
                                .iter()
                                .map(|c| UnsubackReasonCode::try_from(*c).ok())
                                .collect::<Option<Vec<_>>>()?;
                            v5_0::GenericUnsuback::<$p>::builder()
                                .packet_id(*pid as $p)
                                .reason_codes(c)
                                .props(props(ps)?)
                                .build()
                                .ok()?
                                .into()
                        } else {
                            v3_1_1::GenericUnsuback::<$p>::builder().packet_id(*pid as $p).build().ok()?.into()
                        }
                    }
                    Pk::Pingreq => {
                        if v5 {
                            v5_0::Pingreq::new().into()
                        } else {
                            v3_1_1::Pingreq::new().into()
                        }
                    }
                    Pk::Pingresp => {
                        if v5 {
                            v5_0::Pingresp::new().into()
                        } else {
                            v3_1_1::Pingresp::new().into()
                        }
                    }
                    Pk::Disconnect { rc, props: ps } => {
                        if v5 {
                            let mut b = v5_0::Disconnect::builder();
                            if let Some(c) = rc {
                                b = b.reason_code(DisconnectReasonCode::try_from(*c).ok()?);
                            }
                            if let Some(ps) = ps {
                                b = b.props(props(ps)?);
                            }
                            b.build().ok()?.into()
                        } else {
                            v3_1_1::Disconnect::new().into()
                        }
                    }
                    Pk::Auth { rc, props: ps } => {
                        if !v5 {
                            return None;
                        }
                        let mut b = v5_0::Auth::builder();
                        if let Some(c) = rc {
                            b = b.reason_code(AuthReasonCode::try_from(*c).ok()?);
                        }
                        if let Some(ps) = ps {
                            b = b.props(props(ps)?);
                        }
                        b.build().ok()?.into()
                    }
                };
                Some(g)
            }
        }
    };
}
imp!(u16, 2);
imp!(u32, 4);

thread_local! {
    /// serialise for vectored writes instead of into one buffer
    pub static VECTORED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn bytes_of<P: Pid>(g: &GenericPacket<P>) -> Vec<u8> {
    if VECTORED.with(|v| v.get()) {
        vectored(g)
    } else {
        g.to_continuous_buffer()
    }
}
/// what a vectored write of the packet would put on the wire
pub fn vectored<P: Pid>(g: &GenericPacket<P>) -> Vec<u8> {
    let mut o = Vec::with_capacity(g.size());
    for s in g.to_buffers() {
        o.extend_from_slice(&s);
    }
    o
}

pub fn is_v5<P: Pid>(g: &GenericPacket<P>) -> bool {
    g.protocol_version() == mqtt::Version::V5_0
}

pub fn to_store<P: Pid>(g: GenericPacket<P>) -> Option<GenericStorePacket<P>> {
    match g {
        GenericPacket::V3_1_1Publish(p) => p.try_into().ok(),
        GenericPacket::V5_0Publish(p) => p.try_into().ok(),
        GenericPacket::V3_1_1Pubrel(p) => p.try_into().ok(),
        GenericPacket::V5_0Pubrel(p) => p.try_into().ok(),
        _ => None,
    }
}

/// Parse one whole frame with the library's own parser of the packet kind the first byte names.
/// Ok((packet, consumed body bytes, body length)).
pub fn lib_parse<P: Pid>(f: &[u8], v5: bool) -> Option<Result<(GenericPacket<P>, usize, usize), ()>> {
    let Unit::Frame { hdr, len } = next_unit(f) else { return None };
    lib_parse_body::<P>(f[0], &f[hdr..len], v5)
}

pub fn lib_parse_body<P: Pid>(b0: u8, body: &[u8], v5: bool) -> Option<Result<(GenericPacket<P>, usize, usize), ()>> {
    let n = body.len();
    macro_rules! pp {
        ($e:expr) => {
            match $e {
                Ok((p, c)) => Ok((p.into(), c, n)),
                Err(_) => Err(()),
            }
        };
    }
    let arc = || mqtt::Arc::<[u8]>::from(body);
    Some(match (b0 >> 4, v5) {
        (1, false) => pp!(v3_1_1::Connect::parse(body)),
        (1, true) => pp!(v5_0::Connect::parse(body)),
        (2, false) => pp!(v3_1_1::Connack::parse(body)),
        (2, true) => pp!(v5_0::Connack::parse(body)),
        (3, false) => pp!(v3_1_1::GenericPublish::<P>::parse(b0 & 15, arc())),
        (3, true) => pp!(v5_0::GenericPublish::<P>::parse(b0 & 15, arc())),
        (4, false) => pp!(v3_1_1::GenericPuback::<P>::parse(body)),
        (4, true) => pp!(v5_0::GenericPuback::<P>::parse(body)),
        (5, false) => pp!(v3_1_1::GenericPubrec::<P>::parse(body)),
        (5, true) => pp!(v5_0::GenericPubrec::<P>::parse(body)),
        (6, false) => pp!(v3_1_1::GenericPubrel::<P>::parse(body)),
        (6, true) => pp!(v5_0::GenericPubrel::<P>::parse(body)),
        (7, false) => pp!(v3_1_1::GenericPubcomp::<P>::parse(body)),
        (7, true) => pp!(v5_0::GenericPubcomp::<P>::parse(body)),
        (8, false) => pp!(v3_1_1::GenericSubscribe::<P>::parse(body)),
        (8, true) => pp!(v5_0::GenericSubscribe::<P>::parse(body)),
        (9, false) => pp!(v3_1_1::GenericSuback::<P>::parse(body)),
        (9, true) => pp!(v5_0::GenericSuback::<P>::parse(body)),
        (10, false) => pp!(v3_1_1::GenericUnsubscribe::<P>::parse(body)),
        (10, true) => pp!(v5_0::GenericUnsubscribe::<P>::parse(body)),
        (11, false) => pp!(v3_1_1::GenericUnsuback::<P>::parse(body)),
        (11, true) => pp!(v5_0::GenericUnsuback::<P>::parse(body)),
        (12, false) => pp!(v3_1_1::Pingreq::parse(body)),
        (12, true) => pp!(v5_0::Pingreq::parse(body)),
        (13, false) => pp!(v3_1_1::Pingresp::parse(body)),
        (13, true) => pp!(v5_0::Pingresp::parse(body)),
        (14, false) => pp!(v3_1_1::Disconnect::parse(body)),
        (14, true) => pp!(v5_0::Disconnect::parse(body)),
        (15, true) => pp!(v5_0::Auth::parse(body)),
        _ => return None,
    })
}
