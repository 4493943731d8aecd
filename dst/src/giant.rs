//! The "giant" world: traffic at the largest Remaining Length MQTT can express (268,435,455), where the length
//! arithmetic of parsing, of alias expansion and of automatic alias mapping is at its limit.  The runs are scripted by
//! a few numbers, which are the replay file; the bytes are a function of them.

use crate::ep::guard;
use crate::libpk::*;
use crate::model::*;
use crate::rng::Rng;
use crate::solo::Stats;
use mqtt_protocol_core::mqtt;
use mqtt::connection::{GenericConnection, GenericEvent};
use mqtt::packet::{v5_0, GenericPacket, GenericPacketTrait, Properties, Property};
use mqtt::role;
use mqtt::Version;

pub const MAX: usize = 268_435_455;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct GCfg {
    /// 0 parse, 1 receive by alias, 2 send by alias into the store, 3 automatic mapping, 4 plain frame in chunks
    pub scen: u8,
    pub ty: u8,
    pub v5: bool,
    /// how many bytes the subject is above (parse) or below (others) the limit
    pub d: usize,
    pub topic: usize,
    pub cut: usize,
}

impl GCfg {
    pub fn text(&self) -> String {
        format!("giant {} {} {} {} {} {}", self.scen, self.ty, self.v5 as u8, self.d, self.topic, self.cut)
    }
    pub fn parse(s: &str) -> Option<GCfg> {
        let f: Vec<usize> = s.strip_prefix("giant ")?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if f.len() != 6 {
            return None;
        }
        Some(GCfg { scen: f[0] as u8, ty: f[1] as u8, v5: f[2] == 1, d: f[3], topic: f[4], cut: f[5] })
    }
}

pub fn generate(prop: u32, r: &mut Rng) -> GCfg {
    let scen = match prop {
        4 => 0,
        9 => 4,
        13 => [1, 2, 3][r.us(3)],
        _ => r.below(5) as u8,
    };
    let tys = [3u8, 3, 8, 9, 10, 11, 2, 1, 4, 5, 6, 7, 14, 15];
    GCfg {
        scen,
        ty: tys[r.us(tys.len())],
        v5: scen != 0 || r.pct(70),
        d: if scen == 0 { [0, 1, 2, 5, 4096][r.us(5)] } else { [0, 1, 2, 3, 4, 5, 6, 8, 200][r.us(9)] },
        topic: [1, 2, 3, 4, 100][r.us(5)],
        cut: [0, 1, 2, 4, 5, 6, 1 << 20, 100_000_000][r.us(8)],
    }
}

fn vbi(mut n: usize, o: &mut Vec<u8>) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        o.push(b | if n > 0 { 0x80 } else { 0 });
        if n == 0 {
            break;
        }
    }
}
fn string(n: usize, o: &mut Vec<u8>) {
    o.extend_from_slice(&(n as u16).to_be_bytes());
    o.resize(o.len() + n, b'x');
}
/// properties of exactly n bytes
fn props(mut n: usize, o: &mut Vec<u8>) {
    while n >= 5 {
        let k = n.min(131_075);
        // leave room for a last one
        let k = if n - k > 0 && n - k < 5 { k - 5 } else { k };
        let s = k - 5;
        o.push(38);
        string(s.min(65_535), o);
        string(s - s.min(65_535), o);
        n -= k;
    }
}

fn body(c: &GCfg) -> Vec<u8> {
    let n = MAX + c.d;
    let mut b = Vec::with_capacity(n + 16);
    let v5 = c.v5;
    // kinds whose only unbounded part are the properties: as long as a property length can say
    let all = |b: &mut Vec<u8>| {
        let p = MAX - 5 + c.d.min(5);
        vbi(p, b);
        props(p, b);
    };
    match c.ty {
        1 if v5 => {
            b.extend_from_slice(b"\0\x04MQTT\x05\x02\0\0");
            all(&mut b);
            string(1, &mut b);
        }
        2 if v5 => {
            b.extend_from_slice(&[0, 0]);
            all(&mut b);
        }
        3 => {
            string(c.topic, &mut b);
            if v5 {
                b.push(0);
            }
            b.resize(n, 0);
        }
        4..=7 if v5 => {
            b.extend_from_slice(&[0, 1, 0]);
            all(&mut b);
        }
        8 | 10 => {
            b.extend_from_slice(&[0, 1]);
            if v5 {
                b.push(0);
            }
            let opt = (c.ty == 8) as usize;
            while b.len() < n {
                let mut k = (n - b.len()).min(65_537 + opt);
                let rest = n - b.len() - k;
                if rest > 0 && rest < 3 + opt {
                    k -= 3 + opt;
                }
                string(k.saturating_sub(2 + opt).max(1), &mut b);
                if opt == 1 {
                    b.push(0);
                }
            }
        }
        9 => {
            b.extend_from_slice(&[0, 1]);
            if v5 {
                b.push(0);
            }
            b.resize(n, 0);
        }
        11 if v5 => {
            b.extend_from_slice(&[0, 1, 0]);
            b.resize(n, 0);
        }
        14 | 15 if v5 => {
            b.push(0);
            all(&mut b);
        }
        _ => b.resize(n, 0),
    }
    b
}

type Con = GenericConnection<role::Client, u16>;
type Evv = Vec<GenericEvent<u16>>;

/// a connected v5.0 client with a session, both alias maxima 5, no size limits
fn connected(persistent: bool) -> Con {
    let mut c = Con::new(Version::V5_0);
    let mut p: Properties = vec![Property::TopicAliasMaximum(mqtt::packet::TopicAliasMaximum::new(5).unwrap())];
    if persistent {
        p.push(Property::SessionExpiryInterval(mqtt::packet::SessionExpiryInterval::new(1000).unwrap()));
    }
    let cn = v5_0::Connect::builder().client_id("c").unwrap().clean_start(true).props(p).build().unwrap();
    c.send(cn.into());
    recv(&mut c, &[0x20, 6, 0, 0, 3, 34, 0, 5], &[]);
    c
}

fn recv(c: &mut Con, b: &[u8], cuts: &[usize]) -> (Evv, usize) {
    let mut ev = vec![];
    let mut at = 0;
    let mut ends: Vec<usize> = cuts.iter().copied().filter(|x| *x > 0 && *x < b.len()).collect();
    ends.push(b.len());
    let mut calls = 0;
    for e in ends {
        while at < e && calls < 100 {
            let mut cur = mqtt::common::Cursor::new(&b[at..e]);
            ev.extend(c.recv(&mut cur));
            at += cur.position() as usize;
            calls += 1;
        }
    }
    (ev, at)
}

fn shape(ev: &Evv) -> String {
    ev.iter()
        .map(|e| match e {
            GenericEvent::NotifyPacketReceived(_) => "Received".to_string(),
            GenericEvent::RequestSendPacket { packet, .. } => format!("Send(type {} size {})", packet_type(packet), packet.size()),
            GenericEvent::NotifyPacketIdReleased(i) => format!("Released({i})"),
            GenericEvent::NotifyError(e) => format!("Error({e:?})"),
            GenericEvent::RequestClose => "Close".to_string(),
            _ => "Timer".to_string(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
fn packet_type(p: &GenericPacket<u16>) -> u8 {
    match p {
        GenericPacket::V5_0Publish(_) | GenericPacket::V3_1_1Publish(_) => 3,
        GenericPacket::V5_0Disconnect(_) => 14,
        _ => 0,
    }
}

fn frame(fixed: u8, topic: &str, alias: Option<u16>, rl: usize) -> Vec<u8> {
    let mut f = Vec::with_capacity(rl + 5);
    f.push(fixed);
    vbi(rl, &mut f);
    let h = f.len();
    f.extend_from_slice(&(topic.len() as u16).to_be_bytes());
    f.extend_from_slice(topic.as_bytes());
    match alias {
        Some(a) => f.extend_from_slice(&[3, 35, (a >> 8) as u8, a as u8]),
        None => f.push(0),
    }
    f.resize(h + rl, 0x61);
    f
}

fn bind(c: &mut Con, topic: &str, alias: u16) {
    let p = v5_0::Publish::builder()
        .topic_name(topic)
        .unwrap()
        .qos(mqtt::packet::Qos::AtMostOnce)
        .payload(Vec::<u8>::new())
        .props(vec![Property::TopicAlias(mqtt::packet::TopicAlias::new(alias).unwrap())])
        .build()
        .unwrap();
    c.send(p.into());
}

fn alias_publish(alias: Option<u16>, topic: &str, pid: Option<u16>, payload: usize) -> GenericPacket<u16> {
    let mut b = v5_0::Publish::builder();
    if !topic.is_empty() {
        b = b.topic_name(topic).unwrap();
    }
    b = match pid {
        Some(i) => b.qos(mqtt::packet::Qos::AtLeastOnce).packet_id(i),
        None => b.qos(mqtt::packet::Qos::AtMostOnce),
    };
    if let Some(a) = alias {
        b = b.props(vec![Property::TopicAlias(mqtt::packet::TopicAlias::new(a).unwrap())]);
    }
    b.payload(vec![0x61u8; payload]).build().unwrap().into()
}

fn run(c: &GCfg, log: &mut String) -> Vec<Viol> {
    let mut v = vec![];
    let topic = "t".repeat(c.topic.max(1));
    match c.scen {
        0 => {
            let b = body(c);
            let n = b.len();
            let b0 = c.ty << 4 | if matches!(c.ty, 6 | 8 | 10) { 2 } else { 0 };
            match guard(|| lib_parse_body::<u16>(b0, &b, c.v5)) {
                Err(p) => v.push((C04 | C05, format!("the parser of type {} panicked on {n} bytes: {p}", c.ty))),
                Ok(None) => log.push_str("no such parser"),
                Ok(Some(Err(()))) => log.push_str("refused"),
                Ok(Some(Ok((g, used, _)))) => {
                    log.push_str("accepted");
                    if used > n {
                        v.push((C04, format!("the parser claims to have consumed {used} of {n} bytes")));
                    }
                    match guard(|| (bytes_of(&g).len(), g.size())) {
                        Err(p) => v.push((C04, format!("an accepted packet of {n} bytes panics when serialised: {p}"))),
                        Ok((a, s)) if a != s || s > MAX + 5 => v.push((C04, format!("size() is {s}, the serialisation has {a} bytes"))),
                        _ => {}
                    }
                }
            }
        }
        1 | 4 => {
            // a frame just below the limit, by alias (1) or with its topic (4), whole or in two chunks
            let rl = MAX - c.d;
            let r = guard(|| {
                let mut con = connected(true);
                if c.scen == 1 {
                    recv(&mut con, &frame(0x30, &topic, Some(1), topic.len() + 7), &[]);
                }
                let f = if c.scen == 1 { frame(0x30, "", Some(1), rl) } else { frame(0x30, &topic, None, rl) };
                let cuts: Vec<usize> = if c.cut == 0 { vec![] } else { vec![c.cut] };
                let (ev, used) = recv(&mut con, &f, &cuts);
                let ok = ev.iter().filter(|e| matches!(e, GenericEvent::NotifyPacketReceived(GenericPacket::V5_0Publish(p)) if p.topic_name() == topic && p.size() <= MAX + 5)).count();
                let any = ev.iter().filter(|e| matches!(e, GenericEvent::NotifyPacketReceived(_))).count();
                let err = ev.iter().any(|e| matches!(e, GenericEvent::NotifyError(_)));
                let s = shape(&ev);
                drop(ev);
                // the object is usable afterwards
                con.notify_closed();
                let cn = v5_0::Connect::builder().client_id("c").unwrap().build().unwrap();
                let again = con.send(cn.into()).iter().any(|e| matches!(e, GenericEvent::RequestSendPacket { .. }));
                (ok, any, err, used == f.len(), again, s)
            });
            match r {
                Err(p) => v.push((ALL, format!("a received PUBLISH of Remaining Length {rl} panics: {p}"))),
                Ok((ok, any, err, all, again, s)) => {
                    log.push_str(&s);
                    let fits = c.scen == 4 || rl + topic.len() <= MAX;
                    if fits && (ok != 1 || err) {
                        v.push((C05 | C09 | C13 | C14, format!("a PUBLISH of Remaining Length {rl} was not delivered: {s}")));
                    }
                    if any > 1 || (any == 0) != err {
                        v.push((C05, format!("a PUBLISH of Remaining Length {rl} must be delivered or reported: {s}")));
                    }
                    if !all {
                        v.push((C09 | C05, format!("a PUBLISH of Remaining Length {rl} was not consumed to its end")));
                    }
                    if !again {
                        v.push((C05, "no new connection after the close".into()));
                    }
                }
            }
        }
        _ => {
            // 2: a PUBLISH by alias whose stored form needs the topic; 3: one the library may map to an alias
            let r = guard(|| {
                let mut con = connected(true);
                let id = con.acquire_packet_id().unwrap();
                let head = if c.scen == 2 { 2 + 2 + 4 } else { 2 + topic.len() + 2 + 1 };
                let pay = MAX - c.d - head;
                let g = if c.scen == 2 {
                    bind(&mut con, &topic, 1);
                    alias_publish(Some(1), "", Some(id), pay)
                } else {
                    con.set_auto_map_topic_alias_send(c.cut % 2 == 0);
                    con.set_auto_replace_topic_alias_send(c.cut % 2 == 1);
                    if c.cut % 4 >= 1 {
                        bind(&mut con, &topic, 1);
                    }
                    alias_publish(None, &topic, Some(id), pay)
                };
                let ev = con.send(g);
                let s = shape(&ev);
                let sent: Vec<usize> = ev
                    .iter()
                    .filter_map(|e| match e {
                        GenericEvent::RequestSendPacket { packet, .. } if packet_type(packet) == 3 => Some(packet.size()),
                        _ => None,
                    })
                    .collect();
                let err = ev.iter().any(|e| matches!(e, GenericEvent::NotifyError(_)));
                let rel = ev.iter().any(|e| matches!(e, GenericEvent::NotifyPacketIdReleased(_)));
                drop(ev);
                let st: Vec<(usize, bool)> = con
                    .get_stored_packets()
                    .into_iter()
                    .map(|p| {
                        let g = GenericPacket::<u16>::from(p);
                        (g.size(), matches!(&g, GenericPacket::V5_0Publish(p) if p.topic_name() == topic))
                    })
                    .collect();
                (sent, err, rel, st, s)
            });
            match r {
                Err(p) => v.push((ALL, format!("a PUBLISH sent at the largest size panics: {p}"))),
                Ok((sent, err, rel, st, s)) => {
                    log.push_str(&s);
                    let fits = c.scen == 3 || c.d + 3 >= topic.len();
                    if fits && (sent.len() != 1 || err || st.len() != 1) {
                        v.push((C06 | C11 | C13 | C14, format!("a PUBLISH {} below the largest size was not sent and stored once: {s}", c.d)));
                    }
                    if err && (!rel || !sent.is_empty() || !st.is_empty()) {
                        v.push((C11 | C08 | C06, format!("a refused PUBLISH left something behind or its identifier in use: {s}")));
                    }
                    if !err && (sent.len() != 1 || st.len() != 1 || !st[0].1) {
                        v.push((C06 | C13, format!("a PUBLISH near the largest size was not sent and stored with its topic: {s}")));
                    }
                    if sent.iter().chain(st.iter().map(|x| &x.0)).any(|x| *x > MAX + 5) {
                        v.push((C14 | C06, format!("a packet larger than MQTT allows: {s}")));
                    }
                }
            }
        }
    }
    v
}

pub fn exec(c: &GCfg, st: &mut Stats, hash: &mut u64, trace: Option<&mut Vec<String>>) -> Vec<Viol> {
    let mut log = String::new();
    st.steps += 1;
    st.calls += 6;
    st.hit("fault: packet at the largest expressible length");
    crate::check::limit(6 << 30);
    let v = run(c, &mut log);
    crate::check::limit(crate::check::RUN_BYTES);
    for b in log.bytes() {
        *hash = (*hash ^ b as u64).wrapping_mul(0x100000001b3);
    }
    if let Some(t) = trace {
        t.push(format!("  {} -> {log}", c.text()));
    }
    v
}
