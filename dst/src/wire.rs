//! Reference MQTT codec, written from the OASIS specifications and independent of the library under test.
//! It is what the stub peer speaks, what the wire tap decodes, and the notation of replay files.
//! `decode` is strict: Ok means "certainly a valid packet" (and canonical in the fields it keeps); Err means
//! "invalid or not certain", and oracles then only use what they observe.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum PV {
    B(u8),
    W(u16),
    D(u32),
    V(u32),
    S(String),
    X(Vec<u8>),
    P(String, String),
}

pub type Props = Vec<(u8, PV)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Connect {
    pub level: u8,
    pub clean: bool,
    pub ka: u16,
    pub cid: String,
    pub will: Option<Will>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Publish {
    pub topic: String,
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
    pub pid: u32,
    pub payload: Vec<u8>,
    pub props: Props,
}

impl Publish {
    pub fn alias(&self) -> Option<u16> {
        self.props.iter().find_map(|(i, v)| match (i, v) {
            (35, PV::W(x)) => Some(*x),
            _ => None,
        })
    }
    pub fn without_alias(&self) -> Publish {
        let mut p = self.clone();
        p.props.retain(|(i, _)| *i != 35);
        p
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pk {
    Connect(Connect),
    Connack { sp: bool, rc: u8, props: Props },
    Publish(Publish),
    /// k = 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack { k: u8, pid: u32, rc: Option<u8>, props: Option<Props> },
    Subscribe { pid: u32, entries: Vec<(String, u8)>, props: Props },
    Suback { pid: u32, codes: Vec<u8>, props: Props },
    Unsubscribe { pid: u32, topics: Vec<String>, props: Props },
    Unsuback { pid: u32, codes: Vec<u8>, props: Props },
    Pingreq,
    Pingresp,
    Disconnect { rc: Option<u8>, props: Option<Props> },
    Auth { rc: Option<u8>, props: Option<Props> },
}

pub fn ack(k: u8, pid: u32) -> Pk {
    Pk::Ack { k, pid, rc: None, props: None }
}

pub fn prop_u32(props: &Props, id: u8) -> Option<u32> {
    props.iter().find_map(|(i, v)| {
        if *i != id {
            return None;
        }
        match v {
            PV::B(x) => Some(*x as u32),
            PV::W(x) => Some(*x as u32),
            PV::D(x) | PV::V(x) => Some(*x),
            _ => None,
        }
    })
}

impl Pk {
    pub fn ty(&self) -> u8 {
        match self {
            Pk::Connect(_) => 1,
            Pk::Connack { .. } => 2,
            Pk::Publish(_) => 3,
            Pk::Ack { k, .. } => *k,
            Pk::Subscribe { .. } => 8,
            Pk::Suback { .. } => 9,
            Pk::Unsubscribe { .. } => 10,
            Pk::Unsuback { .. } => 11,
            Pk::Pingreq => 12,
            Pk::Pingresp => 13,
            Pk::Disconnect { .. } => 14,
            Pk::Auth { .. } => 15,
        }
    }
    pub fn name(&self) -> &'static str {
        TYNAME[self.ty() as usize]
    }
    /// the packet identifier the application obtained for this packet (PUBLISH QoS>0, SUBSCRIBE, UNSUBSCRIBE)
    pub fn own_id(&self) -> Option<u32> {
        match self {
            Pk::Publish(p) if p.qos > 0 => Some(p.pid),
            Pk::Subscribe { pid, .. } | Pk::Unsubscribe { pid, .. } => Some(*pid),
            _ => None,
        }
    }
}

pub const TYNAME: [&str; 16] = [
    "?", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
    "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
];

// ------------------------------------------------------------------ encode

pub fn vbi(mut n: u32, o: &mut Vec<u8>) {
    loop {
        let mut b = (n & 127) as u8;
        n >>= 7;
        if n > 0 {
            b |= 128;
        }
        o.push(b);
        if n == 0 {
            return;
        }
    }
}
fn w16(n: u16, o: &mut Vec<u8>) {
    o.extend_from_slice(&n.to_be_bytes());
}
fn bin(b: &[u8], o: &mut Vec<u8>) {
    w16(b.len() as u16, o);
    o.extend_from_slice(b);
}
fn pidb(pid: u32, w: usize, o: &mut Vec<u8>) {
    if w == 2 {
        w16(pid as u16, o);
    } else {
        o.extend_from_slice(&pid.to_be_bytes());
    }
}
pub fn enc_prop(p: &(u8, PV), o: &mut Vec<u8>) {
    o.push(p.0);
    match &p.1 {
        PV::B(x) => o.push(*x),
        PV::W(x) => w16(*x, o),
        PV::D(x) => o.extend_from_slice(&x.to_be_bytes()),
        PV::V(x) => vbi(*x, o),
        PV::S(s) => bin(s.as_bytes(), o),
        PV::X(b) => bin(b, o),
        PV::P(a, b) => {
            bin(a.as_bytes(), o);
            bin(b.as_bytes(), o);
        }
    }
}
fn enc_props(ps: &Props, o: &mut Vec<u8>) {
    let mut b = Vec::new();
    for p in ps {
        enc_prop(p, &mut b);
    }
    vbi(b.len() as u32, o);
    o.extend_from_slice(&b);
}
pub fn frame(b0: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![b0];
    vbi(body.len() as u32, &mut o);
    o.extend_from_slice(body);
    o
}

impl Pk {
    pub fn encode(&self, v5: bool, w: usize) -> Vec<u8> {
        let mut b = Vec::new();
        let b0;
        match self {
            Pk::Connect(c) => {
                b0 = 0x10;
                bin(b"MQTT", &mut b);
                b.push(c.level);
                let mut f = 0u8;
                if c.clean {
                    f |= 2;
                }
                if let Some(wl) = &c.will {
                    f |= 4 | (wl.qos << 3) | ((wl.retain as u8) << 5);
                }
                if c.pass.is_some() {
                    f |= 0x40;
                }
                if c.user.is_some() {
                    f |= 0x80;
                }
                b.push(f);
                w16(c.ka, &mut b);
                if v5 {
                    enc_props(&c.props, &mut b);
                }
                bin(c.cid.as_bytes(), &mut b);
                if let Some(wl) = &c.will {
                    if v5 {
                        enc_props(&wl.props, &mut b);
                    }
                    bin(wl.topic.as_bytes(), &mut b);
                    bin(&wl.payload, &mut b);
                }
                if let Some(u) = &c.user {
                    bin(u.as_bytes(), &mut b);
                }
                if let Some(p) = &c.pass {
                    bin(p, &mut b);
                }
            }
            Pk::Connack { sp, rc, props } => {
                b0 = 0x20;
                b.push(*sp as u8);
                b.push(*rc);
                if v5 {
                    enc_props(props, &mut b);
                }
            }
            Pk::Publish(p) => {
                b0 = 0x30 | ((p.dup as u8) << 3) | (p.qos << 1) | p.retain as u8;
                bin(p.topic.as_bytes(), &mut b);
                if p.qos > 0 {
                    pidb(p.pid, w, &mut b);
                }
                if v5 {
                    enc_props(&p.props, &mut b);
                }
                b.extend_from_slice(&p.payload);
            }
            Pk::Ack { k, pid, rc, props } => {
                b0 = (k << 4) | if *k == 6 { 2 } else { 0 };
                pidb(*pid, w, &mut b);
                if v5 {
                    if let Some(r) = rc {
                        b.push(*r);
                        if let Some(ps) = props {
                            enc_props(ps, &mut b);
                        }
                    }
                }
            }
            Pk::Subscribe { pid, entries, props } => {
                b0 = 0x82;
                pidb(*pid, w, &mut b);
                if v5 {
                    enc_props(props, &mut b);
                }
                for (t, o) in entries {
                    bin(t.as_bytes(), &mut b);
                    b.push(*o);
                }
            }
            Pk::Suback { pid, codes, props } | Pk::Unsuback { pid, codes, props } => {
                b0 = self.ty() << 4;
                pidb(*pid, w, &mut b);
                if v5 {
                    enc_props(props, &mut b);
                }
                if v5 || b0 == 0x90 {
                    b.extend_from_slice(codes);
                }
            }
            Pk::Unsubscribe { pid, topics, props } => {
                b0 = 0xA2;
                pidb(*pid, w, &mut b);
                if v5 {
                    enc_props(props, &mut b);
                }
                for t in topics {
                    bin(t.as_bytes(), &mut b);
                }
            }
            Pk::Pingreq => b0 = 0xC0,
            Pk::Pingresp => b0 = 0xD0,
            Pk::Disconnect { rc, props } | Pk::Auth { rc, props } => {
                b0 = self.ty() << 4;
                if v5 {
                    if let Some(r) = rc {
                        b.push(*r);
                        if let Some(ps) = props {
                            enc_props(ps, &mut b);
                        }
                    }
                }
            }
        }
        frame(b0, &b)
    }
}

// ------------------------------------------------------------------ framing

#[derive(Clone, Debug, PartialEq)]
pub enum Unit {
    /// a complete frame: header length, whole length
    Frame { hdr: usize, len: usize },
    /// Remaining Length longer than four bytes: the bytes up to and including the fourth length byte
    BadLen { len: usize },
    Partial,
}

/// Reference framing of the next unit at the start of `b`.
pub fn next_unit(b: &[u8]) -> Unit {
    let mut n: u32 = 0;
    for i in 0..4 {
        match b.get(1 + i) {
            None => return Unit::Partial,
            Some(x) => {
                n |= ((x & 127) as u32) << (7 * i);
                if x & 128 == 0 {
                    let len = 2 + i + n as usize;
                    return if b.len() >= len { Unit::Frame { hdr: 2 + i, len } } else { Unit::Partial };
                }
            }
        }
    }
    Unit::BadLen { len: 5 }
}

// ------------------------------------------------------------------ decode

struct Rd<'a> {
    b: &'a [u8],
    i: usize,
    /// syntax only: value rules that the builders also enforce are not checked
    lax: bool,
}
type R<T> = Result<T, String>;
fn e<T>(s: &str) -> R<T> {
    Err(s.to_string())
}

impl<'a> Rd<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn u8(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or("short")?;
        self.i += 1;
        Ok(x)
    }
    fn u16(&mut self) -> R<u16> {
        Ok(((self.u8()? as u16) << 8) | self.u8()? as u16)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(((self.u16()? as u32) << 16) | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return e("short");
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn bin(&mut self) -> R<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    /// printable ASCII, letters and digits of any script and pictographs count as certain
    fn str(&mut self) -> R<String> {
        let s = String::from_utf8(self.bin()?).map_err(|_| "utf8".to_string())?;
        let sure = |c: char| (' '..='~').contains(&c) || (!c.is_ascii() && c.is_alphanumeric()) || ('\u{1f300}'..='\u{1f5ff}').contains(&c);
        if !self.lax && !s.chars().all(sure) {
            return e("uncertain string");
        }
        Ok(s)
    }
    fn pid(&mut self, w: usize) -> R<u32> {
        let p = if w == 2 { self.u16()? as u32 } else { self.u32()? };
        if p == 0 {
            return e("pid 0");
        }
        Ok(p)
    }
    fn vbi(&mut self) -> R<u32> {
        let mut n = 0u32;
        for k in 0..4 {
            let x = self.u8()?;
            n |= ((x & 127) as u32) << (7 * k);
            if x & 128 == 0 {
                if k > 0 && x == 0 {
                    return e("non minimal vbi");
                }
                return Ok(n);
            }
        }
        e("vbi")
    }
    fn props(&mut self, allowed: &[u8]) -> R<Props> {
        let multi = allowed == P_PUBLISH;
        let n = self.vbi()? as usize;
        let sub = self.take(n)?;
        let mut r = Rd { b: sub, i: 0, lax: self.lax };
        let mut out: Props = Vec::new();
        while r.left() > 0 {
            let id = r.u8()?;
            if !allowed.contains(&id) {
                return e("property not allowed");
            }
            let v = match id {
                1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => {
                    let x = r.u8()?;
                    if x > 1 {
                        return e("flag value");
                    }
                    PV::B(x)
                }
                19 | 33 | 34 | 35 => {
                    let x = r.u16()?;
                    if x == 0 && (id == 33 || id == 35) {
                        return e("zero");
                    }
                    PV::W(x)
                }
                2 | 17 | 24 | 39 => {
                    let x = r.u32()?;
                    if x == 0 && id == 39 {
                        return e("zero");
                    }
                    PV::D(x)
                }
                11 => {
                    let x = r.vbi()?;
                    if x == 0 {
                        return e("zero");
                    }
                    PV::V(x)
                }
                3 | 8 | 18 | 21 | 26 | 28 | 31 => PV::S(r.str()?),
                9 | 22 => PV::X(r.bin()?),
                38 => PV::P(r.str()?, r.str()?),
                _ => return e("property id"),
            };
            if id == 8 {
                if let PV::S(s) = &v {
                    if !self.lax && !topic_name_ok(s) {
                        return e("response topic");
                    }
                }
            }
            let many = id == 38 || (id == 11 && (multi || self.lax));
            if !many && out.iter().any(|(i, _)| *i == id) {
                return e("duplicate property");
            }
            out.push((id, v));
        }
        if !self.lax && out.iter().any(|(i, _)| *i == 22) && !out.iter().any(|(i, _)| *i == 21) {
            return e("auth data without method");
        }
        Ok(out)
    }
}

pub fn topic_name_ok(s: &str) -> bool {
    !s.is_empty() && !s.contains('#') && !s.contains('+')
}
pub fn filter_ok(s: &str) -> bool {
    if s.is_empty() || s.starts_with('$') {
        return false;
    }
    let lv: Vec<&str> = s.split('/').collect();
    lv.iter().enumerate().all(|(i, l)| {
        *l == "+" || (*l == "#" && i + 1 == lv.len()) || !(l.contains('+') || l.contains('#'))
    })
}

pub const RC_CONNACK: &[u8] = &[
    0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b,
    0x9c, 0x9d, 0x9f,
];
pub const RC_DISC: &[u8] = &[
    0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99,
    0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];
pub const RC_PUBACK: &[u8] = &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const RC_PUBREL: &[u8] = &[0, 0x92];
pub const RC_SUBACK: &[u8] = &[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2];
pub const RC_UNSUBACK: &[u8] = &[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91];
pub const RC_AUTH: &[u8] = &[0, 0x18, 0x19];

pub fn rc_ok(ty: u8, rc: u8) -> bool {
    match ty {
        2 => RC_CONNACK.contains(&rc),
        4 | 5 => RC_PUBACK.contains(&rc),
        6 | 7 => RC_PUBREL.contains(&rc),
        9 => RC_SUBACK.contains(&rc),
        11 => RC_UNSUBACK.contains(&rc),
        14 => RC_DISC.contains(&rc),
        15 => RC_AUTH.contains(&rc),
        _ => false,
    }
}

pub const P_CONNECT: &[u8] = &[17, 33, 39, 34, 25, 23, 38, 21, 22];
pub const P_WILL: &[u8] = &[24, 1, 2, 3, 8, 9, 38];
pub const P_CONNACK: &[u8] = &[17, 33, 36, 37, 39, 18, 34, 31, 38, 40, 41, 42, 19, 26, 28, 21, 22];
pub const P_PUBLISH: &[u8] = &[1, 2, 35, 8, 9, 38, 11, 3];
pub const P_ACK: &[u8] = &[31, 38];
pub const P_SUB: &[u8] = &[11, 38];
pub const P_UNSUB: &[u8] = &[38];
pub const P_DISC: &[u8] = &[17, 31, 38, 28];
pub const P_AUTH: &[u8] = &[21, 22, 31, 38];

/// Decode one complete frame of the given version.
pub fn decode(f: &[u8], v5: bool, w: usize) -> R<Pk> {
    decode_as(f, v5, w, false)
}
/// Syntax only: what the bytes say, whether or not the values are allowed.
pub fn decode_lax(f: &[u8], v5: bool, w: usize) -> R<Pk> {
    decode_as(f, v5, w, true)
}
fn decode_as(f: &[u8], v5: bool, w: usize, lax: bool) -> R<Pk> {
    let (hdr, len) = match next_unit(f) {
        Unit::Frame { hdr, len } if len == f.len() => (hdr, len),
        _ => return e("not one frame"),
    };
    {
        let mut r = Rd { b: f, i: 1, lax };
        r.vbi()?; // minimal
    }
    let ty = f[0] >> 4;
    let fl = f[0] & 15;
    let mut r = Rd { b: &f[hdr..len], i: 0, lax };
    let need = match ty {
        3 => fl,
        6 | 8 | 10 => 2,
        _ => 0,
    };
    if fl != need {
        return e("fixed header flags");
    }
    let pk = match ty {
        1 => {
            if r.bin()? != b"MQTT" {
                return e("protocol name");
            }
            let level = r.u8()?;
            if level != if v5 { 5 } else { 4 } {
                return e("level");
            }
            let cf = r.u8()?;
            if cf & 1 != 0 {
                return e("reserved");
            }
            let ka = r.u16()?;
            let props = if v5 { r.props(P_CONNECT)? } else { vec![] };
            let cid = r.str()?;
            let will = if cf & 4 != 0 {
                let wp = if v5 { r.props(P_WILL)? } else { vec![] };
                let topic = r.str()?;
                if !lax && !topic_name_ok(&topic) {
                    return e("will topic");
                }
                let payload = r.bin()?;
                let qos = (cf >> 3) & 3;
                if qos == 3 {
                    return e("will qos");
                }
                Some(Will { topic, payload, qos, retain: cf & 0x20 != 0, props: wp })
            } else {
                if cf & 0x38 != 0 {
                    return e("will flags");
                }
                None
            };
            let user = if cf & 0x80 != 0 { Some(r.str()?) } else { None };
            let pass = if cf & 0x40 != 0 { Some(r.bin()?) } else { None };
            if !lax && !v5 && pass.is_some() && user.is_none() {
                return e("password without user");
            }
            let clean = cf & 2 != 0;
            if !lax && !v5 && cid.is_empty() && !clean {
                return e("empty client id");
            }
            Pk::Connect(Connect { level, clean, ka, cid, will, user, pass, props })
        }
        2 => {
            let a = r.u8()?;
            if a > 1 {
                return e("connack flags");
            }
            let rc = r.u8()?;
            if v5 {
                if !rc_ok(2, rc) {
                    return e("rc");
                }
            } else if rc > 5 {
                return e("rc");
            }
            if !lax && a == 1 && rc != 0 {
                return e("sp with failure");
            }
            let props = if v5 { r.props(P_CONNACK)? } else { vec![] };
            Pk::Connack { sp: a == 1, rc, props }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            let dup = fl & 8 != 0;
            if qos == 3 || (!lax && qos == 0 && dup) {
                return e("qos");
            }
            let topic = r.str()?;
            let pid = if qos > 0 { r.pid(w)? } else { 0 };
            let props = if v5 { r.props(P_PUBLISH)? } else { vec![] };
            if topic.is_empty() {
                if !lax && !props.iter().any(|(i, _)| *i == 35) {
                    return e("no topic");
                }
            } else if !lax && !topic_name_ok(&topic) {
                return e("topic");
            }
            let payload = r.take(r.left())?.to_vec();
            Pk::Publish(Publish { topic, qos, dup, retain: fl & 1 != 0, pid, payload, props })
        }
        4..=7 => {
            let pid = r.pid(w)?;
            let mut rc = None;
            let mut props = None;
            // (the library's v3.1.1 builders let an application add a reason code to these: lax)
            if (v5 || lax) && r.left() > 0 {
                let c = r.u8()?;
                if !rc_ok(ty, c) {
                    return e("rc");
                }
                rc = Some(c);
                if v5 && r.left() > 0 {
                    props = Some(r.props(P_ACK)?);
                }
            }
            Pk::Ack { k: ty, pid, rc, props }
        }
        8 => {
            let pid = r.pid(w)?;
            let props = if v5 { r.props(P_SUB)? } else { vec![] };
            let mut entries = vec![];
            while r.left() > 0 {
                let t = r.str()?;
                if !lax && !filter_ok(&t) {
                    return e("filter");
                }
                let o = r.u8()?;
                if o & 3 == 3 || o & 0xC0 != 0 || (!lax && !v5 && o & 0xFC != 0) || (o >> 4) & 3 == 3 {
                    return e("options");
                }
                entries.push((t, o));
            }
            if !lax && entries.is_empty() {
                return e("no entries");
            }
            Pk::Subscribe { pid, entries, props }
        }
        9 | 11 => {
            let pid = r.pid(w)?;
            let props = if v5 { r.props(P_ACK)? } else { vec![] };
            let mut codes = vec![];
            if v5 || ty == 9 {
                while r.left() > 0 {
                    let c = r.u8()?;
                    if v5 && !rc_ok(ty, c) || !v5 && ![0, 1, 2, 0x80].contains(&c) {
                        return e("code");
                    }
                    codes.push(c);
                }
                if !lax && codes.is_empty() {
                    return e("no codes");
                }
            }
            if ty == 9 {
                Pk::Suback { pid, codes, props }
            } else {
                Pk::Unsuback { pid, codes, props }
            }
        }
        10 => {
            let pid = r.pid(w)?;
            let props = if v5 { r.props(P_UNSUB)? } else { vec![] };
            let mut topics = vec![];
            while r.left() > 0 {
                let t = r.str()?;
                if !lax && !filter_ok(&t) {
                    return e("filter");
                }
                topics.push(t);
            }
            if !lax && topics.is_empty() {
                return e("no topics");
            }
            Pk::Unsubscribe { pid, topics, props }
        }
        12 => Pk::Pingreq,
        13 => Pk::Pingresp,
        14 | 15 => {
            let mut rc = None;
            let mut props = None;
            if !v5 && ty == 15 {
                return e("auth in v3");
            }
            // (the library's v3.1.1 builders let an application add a reason code to these: lax)
            if (v5 || lax) && r.left() > 0 {
                let c = r.u8()?;
                if !rc_ok(ty, c) {
                    return e("rc");
                }
                rc = Some(c);
                if v5 && r.left() > 0 {
                    props = Some(r.props(if ty == 14 { P_DISC } else { P_AUTH })?);
                }
            }
            if ty == 15 {
                if let Some(c) = rc {
                    let m = props.as_ref().is_some_and(|p| p.iter().any(|(i, _)| *i == 21));
                    if !lax && c != 0 && !m {
                        return e("auth method");
                    }
                }
                Pk::Auth { rc, props }
            } else {
                Pk::Disconnect { rc, props }
            }
        }
        _ => return e("type 0"),
    };
    if r.left() != 0 {
        return e("trailing bytes");
    }
    Ok(pk)
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}
