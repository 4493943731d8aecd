//! The "corrupt" world: frames of every packet kind cross a transport (or a disk) that damages them, or come
//! from a byzantine sender, and reach the library's packet parsers.  A parser must refuse or produce a packet
//! that is self-consistent and that the library's own builder would have produced.

use crate::ep::guard;
use crate::libpk::*;
use crate::model::*;
use crate::rng::Rng;
use crate::solo::Stats;
use crate::wire::*;
use mqtt_protocol_core::mqtt;
use mqtt::packet::{GenericPacketTrait, MqttBinary, MqttString, PropertiesParse, SubEntry, VariableByteInteger};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub struct Dmg {
    pub v5: bool,
    pub w: usize,
    pub b0: u8,
    pub body: Vec<u8>,
}

impl Dmg {
    pub fn text(&self) -> String {
        format!("frame {} {} {:02x} {}", if self.v5 { "v5" } else { "v3" }, self.w, self.b0, hex(&self.body))
    }
    pub fn parse(s: &str) -> Option<Dmg> {
        let f: Vec<&str> = s.split_whitespace().collect();
        if f.first() != Some(&"frame") {
            return None;
        }
        Some(Dmg {
            v5: f.get(1)? == &"v5",
            w: f.get(2)?.parse().ok()?,
            b0: u8::from_str_radix(f.get(3)?, 16).ok()?,
            body: unhex(f.get(4).unwrap_or(&""))?,
        })
    }
}

fn word(r: &mut Rng) -> String {
    let n = [0, 1, 2, 3, 5, 12, 30][r.us(7)];
    let alpha = ["a", "b", "/", "x", "7", " ", "é", "漢", "\u{7f}", "+", "#", "$", "\0", "\u{feff}", "😀"];
    let plain = r.pct(80);
    (0..n).map(|_| alpha[r.us(if plain { 5 } else { alpha.len() })]).collect()
}
fn topic(r: &mut Rng) -> String {
    match r.below(40) {
        0 => String::new(),
        1 => "a/+/b".into(),
        2 => "a/#".into(),
        3 => "x".repeat(r.range(100, 400) as usize),
        4 => word(r),
        _ => ["t", "t/1", "a/b/c", "/", "$SYS/x", "é/1"][r.us(6)].into(),
    }
}
fn filter(r: &mut Rng) -> String {
    match r.below(30) {
        0 => String::new(),
        1 => word(r),
        2 => "$share/g/t".into(),
        3 => "a/#/b".into(),
        4 => "a+".into(),
        _ => ["t", "t/#", "+", "+/b", "#", "a/b"][r.us(6)].into(),
    }
}
fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = [0, 1, 2, 4, 17, 130][r.us(6)];
    (0..n).map(|_| r.next() as u8).collect()
}
fn prop_of(id: u8, r: &mut Rng) -> (u8, PV) {
    let ext = r.pct(25);
    let v = match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => PV::B(if ext { [0, 1, 2, 255][r.us(4)] } else { r.below(2) as u8 }),
        19 | 33 | 34 | 35 => PV::W(if ext { [0, 1, 65535, 256][r.us(4)] } else { r.range(1, 300) as u16 }),
        2 | 17 | 24 | 39 => PV::D(if ext { [0, 1, u32::MAX, 65536][r.us(4)] } else { r.range(1, 70000) as u32 }),
        11 => PV::V(if ext { [0, 127, 128, 16383, 16384, 2097151, 2097152, 268435455][r.us(8)] } else { r.range(1, 300) as u32 }),
        9 | 22 => PV::X(bytes(r)),
        38 => PV::P(word(r), word(r)),
        8 => PV::S(topic(r)),
        _ => PV::S(word(r)),
    };
    (id, v)
}
const ALLP: &[u8] = &[1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42];

fn rprops(r: &mut Rng, ok: &[u8], wild: u32) -> Props {
    let mut o: Props = vec![];
    if r.pct(30) {
        return o;
    }
    let n = r.below(5);
    for _ in 0..n {
        let id = if r.pct(wild) { *r.pick(ALLP) } else { *r.pick(ok) };
        if id != 38 && o.iter().any(|(i, _)| *i == id) && !r.pct(wild) {
            continue;
        }
        if id == 22 && !r.pct(wild) {
            o.push(prop_of(21, r));
        }
        o.push(prop_of(id, r));
    }
    o
}

/// a packet of any kind; `wild` is the percentage of rule-breaking fields
pub fn rand_pk(r: &mut Rng, ty: u8, v5: bool, w: usize, wild: u32) -> Pk {
    let max: u32 = if w == 2 { 65535 } else { u32::MAX };
    let pid = match r.below(20) {
        0 if r.pct(wild * 3) => 0,
        1 => max,
        2 => 256,
        3 if w == 4 => 65536,
        _ => r.range(1, 500) as u32,
    };
    let rcs = |r: &mut Rng, ok: &[u8]| if r.pct(wild) { r.next() as u8 } else { *r.pick(ok) };
    let opt = |r: &mut Rng, ok: &[u8], p: &[u8]| {
        if r.pct(30) {
            (None, None)
        } else {
            let c = Some(if r.pct(wild) { r.next() as u8 } else { *r.pick(ok) });
            (c, if r.pct(50) { Some(rprops(r, p, wild)) } else { None })
        }
    };
    match ty {
        1 => {
            let will = if r.pct(40) {
                Some(Will {
                    topic: topic(r),
                    payload: bytes(r),
                    qos: if r.pct(wild) { 3 } else { r.below(3) as u8 },
                    retain: r.bool(),
                    props: if v5 { rprops(r, P_WILL, wild) } else { vec![] },
                })
            } else {
                None
            };
            let user = if r.bool() { Some(word(r)) } else { None };
            Pk::Connect(Connect {
                level: if r.pct(wild / 2) { r.below(8) as u8 } else { 4 + v5 as u8 },
                clean: r.bool(),
                ka: r.next() as u16,
                cid: word(r),
                will,
                pass: if (user.is_some() || r.pct(30)) && r.bool() { Some(bytes(r)) } else { None },
                user,
                props: if v5 { rprops(r, P_CONNECT, wild) } else { vec![] },
            })
        }
        2 => Pk::Connack {
            sp: r.bool(),
            rc: if v5 { rcs(r, RC_CONNACK) } else { rcs(r, &[0, 1, 2, 3, 4, 5]) },
            props: if v5 { rprops(r, P_CONNACK, wild) } else { vec![] },
        },
        3 => {
            let qos = if r.pct(wild / 2) { 3 } else { r.below(3) as u8 };
            Pk::Publish(Publish {
                topic: topic(r),
                qos,
                dup: (qos > 0 || r.pct(wild)) && r.bool(),
                retain: r.bool(),
                pid,
                payload: bytes(r),
                props: if v5 { rprops(r, P_PUBLISH, wild) } else { vec![] },
            })
        }
        4..=7 => {
            let (rc, props) = opt(r, if ty < 6 { RC_PUBACK } else { RC_PUBREL }, P_ACK);
            let (rc, props) = if v5 { (rc, props) } else { (None, None) };
            Pk::Ack { k: ty, pid, rc, props }
        }
        8 => Pk::Subscribe {
            pid,
            entries: (0..if r.pct(wild) { 0 } else { r.range(1, 4) })
                .map(|_| (filter(r), if r.pct(wild) { r.next() as u8 } else { r.below(3) as u8 | if v5 { [0, 4, 8, 12, 16, 32, 44][r.us(7)] } else { 0 } }))
                .collect(),
            props: if v5 { rprops(r, P_SUB, wild) } else { vec![] },
        },
        9 => Pk::Suback {
            pid,
            codes: (0..if r.pct(wild) { 0 } else { r.range(1, 4) }).map(|_| if v5 { rcs(r, RC_SUBACK) } else { rcs(r, &[0, 1, 2, 0x80]) }).collect(),
            props: if v5 { rprops(r, P_ACK, wild) } else { vec![] },
        },
        10 => Pk::Unsubscribe {
            pid,
            topics: (0..if r.pct(wild) { 0 } else { r.range(1, 4) }).map(|_| filter(r)).collect(),
            props: if v5 { rprops(r, P_UNSUB, wild) } else { vec![] },
        },
        11 => Pk::Unsuback {
            pid,
            codes: if v5 { (0..if r.pct(wild) { 0 } else { r.range(1, 4) }).map(|_| rcs(r, RC_UNSUBACK)).collect() } else { vec![] },
            props: if v5 { rprops(r, P_ACK, wild) } else { vec![] },
        },
        12 => Pk::Pingreq,
        13 => Pk::Pingresp,
        14 => {
            let (rc, props) = opt(r, RC_DISC, P_DISC);
            let (rc, props) = if v5 { (rc, props) } else { (None, None) };
            Pk::Disconnect { rc, props }
        }
        _ => {
            let (rc, props) = opt(r, RC_AUTH, P_AUTH);
            Pk::Auth { rc, props }
        }
    }
}

fn byte_damage(b: &mut Vec<u8>, r: &mut Rng, other: &[u8], st: &mut Stats) {
    let at = |r: &mut Rng, n: usize| {
        // near the front, where lengths and identifiers live, more often than not
        if n == 0 {
            0
        } else if r.bool() {
            r.us(n.min(14))
        } else {
            r.us(n)
        }
    };
    match r.below(10) {
        0 | 1 if !b.is_empty() => {
            let i = at(r, b.len());
            b[i] ^= 1 << r.below(8);
            st.hit("fault: bit flip");
        }
        2 if !b.is_empty() => {
            let i = at(r, b.len());
            b[i] = [0, 1, 0x7f, 0x80, 0xff, 0xfe, 2, 3][r.us(8)];
            st.hit("fault: byte overwritten");
        }
        3 if !b.is_empty() => {
            let i = at(r, b.len());
            b[i] = b[i].wrapping_add([1, 255, 2, 254][r.us(4)]);
            st.hit("fault: byte off by one or two");
        }
        4 => {
            let i = at(r, b.len() + 1);
            b.insert(i.min(b.len()), r.next() as u8);
            st.hit("fault: byte inserted");
        }
        5 if !b.is_empty() => {
            let i = at(r, b.len());
            b.remove(i);
            st.hit("fault: byte lost");
        }
        6 => {
            let n = r.us(b.len() + 1);
            b.truncate(n);
            st.hit("fault: truncated (short read or torn write)");
        }
        7 => {
            for _ in 0..r.range(1, 6) {
                b.push(if r.bool() { 0 } else { r.next() as u8 });
            }
            st.hit("fault: trailing bytes");
        }
        8 if b.len() > 1 => {
            let i = r.us(b.len());
            let j = (i + 1 + r.us(12)).min(b.len());
            let s = b[i..j].to_vec();
            let k = r.us(b.len() + 1);
            b.splice(k..k, s);
            st.hit("fault: slice duplicated");
        }
        _ => {
            let i = r.us(b.len() + 1);
            let j = r.us(other.len() + 1);
            b.truncate(i);
            b.extend_from_slice(&other[j..]);
            st.hit("fault: two frames spliced");
        }
    }
}

pub fn gen_frames(r: &mut Rng, long: bool, st: &mut Stats) -> Vec<Dmg> {
    let n = if long { 120 } else { 40 };
    // swarm: what this run does
    let wild = [0, 3, 15, 40][r.us(4)];
    let dmg = [0, 30, 60, 100][r.us(4)];
    let many = r.pct(30);
    let only = if r.pct(30) { Some(r.range(1, 15) as u8) } else { None };
    let noise = r.pct(10);
    let mut out = vec![];
    let mut last: Vec<u8> = vec![];
    for _ in 0..n {
        let v5 = r.bool();
        let w = if r.bool() { 2 } else { 4 };
        let ty = only.unwrap_or(r.range(1, 15) as u8);
        let pk = rand_pk(r, ty, v5, w, wild);
        let f = pk.encode(v5, w);
        let Unit::Frame { hdr, len } = next_unit(&f) else { continue };
        let mut b0 = f[0];
        let mut body = f[hdr..len].to_vec();
        if wild > 0 {
            st.hit("fault: byzantine sender");
        }
        if noise && r.pct(50) {
            let k = r.us(24);
            body = (0..k).map(|_| if r.bool() { r.below(4) as u8 } else { r.next() as u8 }).collect();
            st.hit("fault: noise instead of a frame");
        } else if r.pct(dmg) {
            let k = if many { r.range(1, 6) } else { 1 };
            for _ in 0..k {
                byte_damage(&mut body, r, &last, st);
            }
            if r.pct(10) {
                b0 ^= 1 << r.below(4);
                st.hit("fault: fixed header flag flipped");
            }
        }
        last = body.clone();
        out.push(Dmg { v5, w, b0, body });
    }
    out
}

/// Some(message) when the library's parser and the frame together break C04.  `acc` tells whether it was accepted.
pub fn judge<P: Pid>(d: &Dmg, acc: &mut Option<(u8, usize)>) -> Option<String> {
    let r = match guard(|| lib_parse_body::<P>(d.b0, &d.body, d.v5)) {
        Err(p) => return Some(format!("the parser panicked: {p}")),
        Ok(None) => return None,
        Ok(Some(r)) => r,
    };
    // the decoders the parsers are made of, on the same bytes
    let b = &d.body[..];
    let aux = guard(|| {
        let mut v: Vec<(&str, usize)> = vec![];
        if let Ok((_, n)) = MqttString::decode(b) {
            v.push(("MqttString", n));
        }
        if let Ok((_, n)) = MqttBinary::decode(b) {
            v.push(("MqttBinary", n));
        }
        if let Ok((_, n)) = SubEntry::parse(b) {
            v.push(("SubEntry", n));
        }
        if let Ok((_, n)) = mqtt::packet::Property::parse(b) {
            v.push(("Property", n));
        }
        if let Ok((_, n)) = <mqtt::packet::Properties as PropertiesParse>::parse(b) {
            v.push(("Properties", n));
        }
        if let mqtt::packet::DecodeResult::Ok(_, n) = VariableByteInteger::decode_stream(b) {
            v.push(("VariableByteInteger", n));
        }
        v
    });
    match aux {
        Err(p) => return Some(format!("a decoder panicked on the body: {p}")),
        Ok(v) => {
            for (n, c) in v {
                if c > b.len() {
                    return Some(format!("{n} claims {c} of {} bytes", b.len()));
                }
            }
        }
    }
    let Ok((g, used, n)) = r else { return None };
    *acc = Some((d.b0 >> 4, used));
    if used > n {
        return Some(format!("the parser claims to have consumed {used} of {n} bytes"));
    }
    let s = guard(|| (bytes_of(&g), g.size(), is_v5(&g), vectored(&g)));
    let (bytes, size, v5, vect) = match s {
        Err(p) => return Some(format!("an accepted packet panics when serialised: {p}")),
        Ok(x) => x,
    };
    if v5 != d.v5 {
        return Some("the packet is of the other protocol version".into());
    }
    if vect != bytes {
        return Some(format!("to_buffers() gives {}, to_continuous_buffer() {}", hex(&vect), hex(&bytes)));
    }
    if size != bytes.len() {
        return Some(format!("size() is {size}, the serialisation has {} bytes: {}", bytes.len(), hex(&bytes)));
    }
    if next_unit(&bytes) != (Unit::Frame { hdr: bytes.len() - body_len(&bytes), len: bytes.len() }) {
        return Some(format!("the serialisation is not one frame: {}", hex(&bytes)));
    }
    match guard(|| lib_parse::<P>(&bytes, d.v5)) {
        Err(p) => return Some(format!("re-parsing {} panicked: {p}", hex(&bytes))),
        Ok(Some(Ok((h, u2, n2)))) => {
            if h != g {
                return Some(format!("re-parsing {} yields a different packet", hex(&bytes)));
            }
            if u2 != n2 {
                return Some(format!("re-parsing {} consumes {u2} of {n2} bytes", hex(&bytes)));
            }
        }
        Ok(_) => return Some(format!("re-parsing {} is refused", hex(&bytes))),
    }
    // the structural rules: an independent reading of what was accepted, and the library's builder
    let pk = match decode_lax(&bytes, d.v5, P::W) {
        Ok(p) => p,
        Err(x) => return Some(format!("accepted although not a valid packet ({x}): it serialises as {}", hex(&bytes))),
    };
    if let Some(x) = broken_rule(&pk, d.v5) {
        return Some(format!("accepted although it breaks a rule ({x}): {pk:?}"));
    }
    match guard(|| P::build(&pk, d.v5)) {
        Err(p) => Some(format!("the builder panicked on what the parser accepted ({pk:?}): {p}")),
        Ok(None) => Some(format!("the parser accepts what the builder refuses: {pk:?}")),
        // (the AUTH builder always writes the property length; a frame without it means the same)
        Ok(Some(x)) if x != g && !matches!(pk, Pk::Auth { .. }) => Some(format!("the builder makes a different packet of {pk:?}")),
        _ => None,
    }
}

fn body_len(b: &[u8]) -> usize {
    match next_unit(b) {
        Unit::Frame { hdr, len } => len - hdr,
        _ => 0,
    }
}

/// rules named by the property or enforced by every builder, stated independently
fn broken_rule(p: &Pk, v5: bool) -> Option<&'static str> {
    match p {
        Pk::Publish(p) => {
            if p.qos > 2 {
                return Some("QoS 3");
            }
            if p.topic.contains(['#', '+']) {
                return Some("wildcard in a topic name");
            }
            if p.topic.is_empty() && (!v5 || p.alias().is_none()) {
                return Some("neither topic nor alias");
            }
        }
        Pk::Subscribe { entries, .. } if entries.is_empty() => return Some("no entries"),
        Pk::Unsubscribe { topics, .. } if topics.is_empty() => return Some("no entries"),
        Pk::Suback { codes, .. } if codes.is_empty() => return Some("no codes"),
        Pk::Unsuback { codes, .. } if v5 && codes.is_empty() => return Some("no codes"),
        Pk::Connect(c) if c.level != 4 + v5 as u8 => return Some("protocol level"),
        Pk::Auth { rc: None, props: Some(_) } => return Some("properties without reason code"),
        _ => {}
    }
    None
}

/// Every body of up to two bytes (three in a long sweep, sampled by the last one) for one packet kind: the first that is
/// judged badly, as a frame to replay.
pub fn sweep(v5: bool, w: usize, b0: u8, third: Option<u8>, stats: &mut Stats, hash: &mut u64) -> Option<Dmg> {
    let mut d = Dmg { v5, w, b0, body: vec![] };
    for k in 0..(1 + 256 + 65536u32) {
        d.body.clear();
        match k {
            0 => {}
            1..=256 => d.body.push((k - 1) as u8),
            _ => d.body.extend_from_slice(&((k - 257) as u16).to_be_bytes()),
        }
        if let Some(t) = third {
            d.body.push(t);
        }
        let mut acc = None;
        let r = if w == 2 { judge::<u16>(&d, &mut acc) } else { judge::<u32>(&d, &mut acc) };
        stats.calls += 1;
        let x = acc.map(|x| x.1 as u64 + 1).unwrap_or(0) + k as u64;
        *hash = (*hash ^ x).wrapping_mul(0x100000001b3);
        if r.is_some() {
            return Some(d);
        }
    }
    stats.steps += 1;
    stats.hit("fault: every body of one kind up to two or three bytes");
    None
}

pub fn exec(frames: &[Dmg], stats: &mut Stats, states: &mut BTreeSet<u64>, hash: &mut u64, mut trace: Option<&mut Vec<String>>) -> Vec<Viol> {
    for d in frames {
        stats.steps += 1;
        stats.calls += 1;
        let mut acc = None;
        let r = if d.w == 2 { judge::<u16>(d, &mut acc) } else { judge::<u32>(d, &mut acc) };
        if acc.is_some() {
            stats.hit("damaged or hostile frame accepted");
        } else {
            stats.hit("damaged or hostile frame refused");
        }
        // what was reached: kind x version x width x outcome x (bytes used, capped)
        let k = (d.b0 as u64) | (d.v5 as u64) << 8 | (d.w as u64) << 9 | (acc.map(|x| x.1.min(60) as u64 + 1).unwrap_or(0)) << 16 | (d.body.len().min(80) as u64) << 24;
        states.insert(k);
        *hash = (*hash ^ k).wrapping_mul(0x100000001b3);
        if let Some(t) = trace.as_deref_mut() {
            t.push(format!("  {} -> {}", d.text(), if acc.is_some() { "accepted" } else { "refused" }));
        }
        if let Some(x) = r {
            return vec![(C04 | if x.contains("panicked") { C05 } else { 0 }, format!("{} {}: {x} [frame {:02x} {}]", if d.v5 { "v5.0" } else { "v3.1.1" }, TYNAME[(d.b0 >> 4) as usize], d.b0, hex(&d.body)))];
        }
    }
    vec![]
}
