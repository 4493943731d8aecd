//! Steps of a simulated run, recorded concretely, and the text form of replay files.

use crate::ep::*;
use crate::wire::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Send { pk: Pk, v5: bool, checked: bool },
    Acquire,
    Register(u32),
    Release(u32),
    Erase(u32),
    Opt(u8, bool),
    Interval(Option<u64>),
    PingrespTo(u64),
    /// bytes arriving from the network, cut into the given chunk sizes (the last chunk takes the rest)
    Feed(Vec<u8>, Vec<usize>),
    /// virtual time passes; due timers fire in deadline order
    Advance(u64),
    /// a timer expiry that raced with its cancellation
    Stale(u8),
    /// transport lost / closed, reported to the library
    Close,
    /// process crash: only exported session state survives
    Crash,
    /// the same, but the new process takes that many identifiers before it restores the export (none: it restores it twice)
    CrashBusy(u8),
    /// the transport failed to send the packet carrying this identifier
    SendError(u32),
    Probe(Vec<u32>),
    Exhaust,
    Regulate(Pk),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub role: Role,
    pub w: usize,
    pub ver: Ver,
    /// property whose twin runs in lockstep (0: none)
    pub twin: u8,
}

fn role_s(r: Role) -> &'static str {
    match r {
        Role::Client => "client",
        Role::Server => "server",
        Role::Any => "any",
    }
}
fn ver_s(v: Ver) -> &'static str {
    match v {
        Ver::V3 => "v3",
        Ver::V5 => "v5",
        Ver::Und => "und",
    }
}

impl Cfg {
    pub fn text(&self) -> String {
        format!("cfg {} {} {} twin={}", role_s(self.role), self.w, ver_s(self.ver), self.twin)
    }
    pub fn parse(l: &str) -> Option<Cfg> {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() != 5 || f[0] != "cfg" {
            return None;
        }
        Some(Cfg {
            role: match f[1] {
                "client" => Role::Client,
                "server" => Role::Server,
                _ => Role::Any,
            },
            w: f[2].parse().ok()?,
            ver: match f[3] {
                "v3" => Ver::V3,
                "v5" => Ver::V5,
                _ => Ver::Und,
            },
            twin: f[4].strip_prefix("twin=")?.parse().ok()?,
        })
    }
}

impl Step {
    pub fn text(&self, w: usize) -> String {
        match self {
            Step::Send { pk, v5, checked } => format!(
                "send {} {} {} # {}",
                if *v5 { "v5" } else { "v3" },
                if *checked { "checked" } else { "plain" },
                hex(&pk.encode(*v5, w)),
                showpk(pk)
            ),
            Step::Acquire => "acquire".into(),
            Step::Register(i) => format!("register {i}"),
            Step::Release(i) => format!("release {i}"),
            Step::Erase(i) => format!("erase {i}"),
            Step::Opt(o, b) => format!("opt {} {} # {}", o, *b as u8, ONAME[*o as usize]),
            Step::Interval(None) => "interval none".into(),
            Step::Interval(Some(x)) => format!("interval {x}"),
            Step::PingrespTo(x) => format!("pingrespto {x}"),
            Step::Feed(b, c) => format!(
                "feed {} {}",
                hex(b),
                if c.is_empty() { "-".into() } else { c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
            ),
            Step::Advance(x) => format!("advance {x}"),
            Step::Stale(k) => format!("stale {k} # {}", TNAME[*k as usize]),
            Step::Close => "close".into(),
            Step::Crash => "crash".into(),
            Step::CrashBusy(n) => format!("crashbusy {n}"),
            Step::SendError(i) => format!("senderror {i}"),
            Step::Probe(v) => format!("probe {}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Step::Exhaust => "exhaust".into(),
            Step::Regulate(pk) => format!("regulate {}", hex(&pk.encode(true, w))),
        }
    }
    pub fn parse(l: &str, w: usize) -> Option<Step> {
        let l = l.split('#').next()?.trim();
        let f: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok());
        Some(match *f.first()? {
            "send" => {
                let v5 = *f.get(1)? == "v5";
                Step::Send { pk: decode(&unhex(f.get(3)?)?, v5, w).ok()?, v5, checked: *f.get(2)? == "checked" }
            }
            "acquire" => Step::Acquire,
            "register" => Step::Register(n(1)? as u32),
            "release" => Step::Release(n(1)? as u32),
            "erase" => Step::Erase(n(1)? as u32),
            "opt" => Step::Opt(n(1)? as u8, n(2)? == 1),
            "interval" => Step::Interval(n(1)),
            "pingrespto" => Step::PingrespTo(n(1)?),
            "feed" => Step::Feed(
                if f.len() == 3 { unhex(f[1])? } else { vec![] },
                f.last()?.split(',').filter_map(|x| x.parse().ok()).collect(),
            ),
            "advance" => Step::Advance(n(1)?),
            "stale" => Step::Stale(n(1)? as u8),
            "close" => Step::Close,
            "crash" => Step::Crash,
            "crashbusy" => Step::CrashBusy(n(1)? as u8),
            "senderror" => Step::SendError(n(1)? as u32),
            "probe" => Step::Probe(f.get(1).unwrap_or(&"").split(',').filter_map(|x| x.parse().ok()).collect()),
            "exhaust" => Step::Exhaust,
            "regulate" => Step::Regulate(decode(&unhex(f.get(1)?)?, true, w).ok()?),
            _ => return None,
        })
    }
}
