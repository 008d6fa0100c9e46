// Sessions of the protocols: all parties run the real rounds over the simulated network of minimanul, with
// chosen delivery orders and with one party whose messages are altered. Everything observable is recorded.
use super::curve::{ptj, scalar, scj};
use super::paillier::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::entities::*;
use crate::params::SchemeParams;
use manul::protocol::*;
use manul::sim::{
    self, Assoc, Class, Control, Event, Evidence, EvidenceKind, Proven, Run, Transcript, Verdict,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::prelude::v1::*;
use std::{format, vec};

pub type Res<EP> = <<EP as EntryPoint<u32>>::Protocol as Protocol<u32>>::Result;

/// One protocol with the inputs of all parties.
pub trait Kind {
    type EP: EntryPoint<u32>;
    fn name(&self) -> &'static str;
    fn entries(&self) -> BTreeMap<u32, Self::EP>;
    fn assoc(&self) -> Option<Assoc<u32, <Self::EP as EntryPoint<u32>>::Protocol>>;
    fn show(&self, id: u32, r: &Res<Self::EP>) -> J;
    /// What the parties start with, for the specification
    fn inputs(&self) -> J {
        obj! {}
    }
    /// The encryption keys, with their secret parts
    fn keys(&self) -> J {
        J::A(vec![])
    }
    /// The first message (its echo broadcast) that commits to the second message `m`
    /// with the values left out that `skip` says.
    fn recommit(
        &self,
        _sr: &[u8],
        _dev: u32,
        _hr: bool,
        _m: &ProtocolMessage,
        _skip: u32,
    ) -> Option<Vec<u8>> {
        None
    }
    /// Messages of a party that makes them up
    fn forge(&self, _s: &super::forge::Scene<'_>) -> super::forge::Forged {
        Default::default()
    }
    /// What it commits to, in order
    fn committed(&self) -> &'static [&'static str] {
        &[]
    }
    /// Values an attacker may know that are special: multiples of primes and the like
    fn special(&self) -> Vec<Vec<u8>> {
        vec![]
    }
    fn errors(
        &self,
        _ids: &[u32],
    ) -> Vec<(
        u8,
        String,
        <<Self::EP as EntryPoint<u32>>::Protocol as Protocol<u32>>::ProtocolError,
    )> {
        vec![]
    }
}

// ---------------------------------------------------------------- messages and their alterations

pub const PARTS: [&str; 3] = ["echo", "normal", "direct"];
pub fn part(m: &ProtocolMessage, p: usize) -> Option<Vec<u8>> {
    match p {
        0 => m.echo_broadcast.raw().map(|x| x.to_vec()),
        1 => m.normal_broadcast.raw().map(|x| x.to_vec()),
        _ => m.direct_message.raw().map(|x| x.to_vec()),
    }
}
pub fn set_part(m: &mut ProtocolMessage, p: usize, raw: Option<Vec<u8>>) {
    match p {
        0 => m.echo_broadcast = ProtocolMessagePart::from_raw(raw),
        1 => m.normal_broadcast = ProtocolMessagePart::from_raw(raw),
        _ => m.direct_message = ProtocolMessagePart::from_raw(raw),
    }
}
fn parts(m: &ProtocolMessage) -> [Option<Vec<u8>>; 3] {
    [part(m, 0), part(m, 1), part(m, 2)]
}

/// All places in a value: path of child indices, and their names.
fn places(v: &Value, path: &mut Vec<usize>, name: &str, out: &mut Vec<(Vec<usize>, String)>) {
    out.push((path.clone(), name.to_string()));
    for (k, (label, c)) in v.children().into_iter().enumerate() {
        path.push(k);
        places(c, path, &format!("{name}.{label}"), out);
        path.pop();
    }
}
fn at<'a>(v: &'a Value, path: &[usize]) -> Option<&'a Value> {
    let mut v = v;
    for k in path {
        v = v.children().into_iter().nth(*k)?.1;
    }
    Some(v)
}
fn put(v: &mut Value, path: &[usize], x: Value) -> bool {
    let mut v = v;
    for k in path {
        match v.child_mut(*k) {
            Some(c) => v = c,
            None => return false,
        }
    }
    *v = x;
    true
}
fn bytes_muts(b: &[u8], special: &[Vec<u8>]) -> Vec<(String, Vec<u8>)> {
    let n = b.len();
    let mut out = vec![
        ("zero".to_string(), vec![0; n]),
        ("ff".into(), vec![0xff; n]),
        ("longer".into(), [b, &[0]].concat()),
        ("longer0".into(), [&[0], b].concat()),
        ("empty".into(), vec![]),
    ];
    if n > 0 {
        let with = |k: usize, x: u8| {
            let mut c = b.to_vec();
            c[k] ^= x;
            c
        };
        out.push(("bit0".into(), with(0, 1)));
        out.push(("bitn".into(), with(n - 1, 1)));
        out.push(("top0".into(), with(0, 0x80)));
        out.push(("topn".into(), with(n - 1, 0x80)));
        out.push(("mid".into(), with(n / 2, 0x10)));
        out.push(("shorter".into(), b[..n - 1].to_vec()));
        let mut one = vec![0; n];
        one[0] = 1;
        out.push(("one-le".into(), one.clone()));
        one.reverse();
        out.push(("one-be".into(), one));
        for (k, s) in special.iter().enumerate() {
            if s.len() <= n {
                let mut x = vec![0; n - s.len()];
                x.extend_from_slice(s);
                out.push((format!("special{k}-be"), x.clone()));
                x.reverse();
                out.push((format!("special{k}-le"), x));
            }
        }
    }
    out
}
/// Other values for a place.
fn muts(v: &Value, special: &[Vec<u8>]) -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = vec![];
    match v {
        Value::Unit => out.push(("type".into(), Value::U(7))),
        Value::Bool(b) => out.push(("not".into(), Value::Bool(!b))),
        Value::U(x) => {
            for (n, y) in [
                ("0", 0),
                ("inc", x + 1),
                ("dec", x.wrapping_sub(1)),
                ("u32", u32::MAX as u128),
                ("u64", u64::MAX as u128),
                ("i32", i32::MAX as u128),
            ] {
                out.push((n.into(), Value::U(y)));
            }
        }
        Value::I(x) => out.push(("inc".into(), Value::I(x + 1))),
        Value::Bytes(b) => out.extend(
            bytes_muts(b, special)
                .into_iter()
                .map(|(n, b)| (n, Value::Bytes(b))),
        ),
        Value::Str(s) => {
            out.push(("text".into(), Value::Str("no such thing".into())));
            let h = s.strip_prefix("0x").unwrap_or(s);
            if h.len() % 2 == 0 && h.bytes().all(|b| b.is_ascii_hexdigit()) {
                let b: Vec<u8> = (0..h.len() / 2)
                    .map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap())
                    .collect();
                let pre = if s.starts_with("0x") { "0x" } else { "" };
                out.extend(
                    bytes_muts(&b, special)
                        .into_iter()
                        .map(|(n, b)| (n, Value::Str(format!("{pre}{}", hex(&b))))),
                );
                out.push(("odd".into(), Value::Str(s[..s.len() - 1].into())));
            }
        }
        Value::None => out.push(("some".into(), Value::Some(Box::new(Value::Unit)))),
        Value::Some(_) => out.push(("none".into(), Value::None)),
        Value::Seq(xs) => {
            out.push(("empty".into(), Value::Seq(vec![])));
            if let Some(l) = xs.last() {
                out.push(("drop".into(), Value::Seq(xs[..xs.len() - 1].to_vec())));
                out.push(("drop1".into(), Value::Seq(xs[1..].to_vec())));
                out.push(("dup".into(), Value::Seq([&xs[..], &[l.clone()]].concat())));
                let mut r = xs.clone();
                r.reverse();
                out.push(("reverse".into(), Value::Seq(r)));
                if let (Value::Seq(f), Value::Seq(p)) = (&xs[0], l) {
                    if p.len() == 2 && matches!(p[0], Value::U(_)) {
                        let extra = Value::Seq(vec![Value::U(4_000_000_000), p[1].clone()]);
                        out.push((
                            "extra".into(),
                            Value::Seq([&xs[..], &[extra.clone()]].concat()),
                        ));
                        out.push((
                            "renamed".into(),
                            Value::Seq([&xs[..xs.len() - 1], &[extra]].concat()),
                        ));
                        if xs.len() > 1 {
                            let mut r = xs.clone();
                            let k = r.len() - 1;
                            r[0] = Value::Seq(vec![f[0].clone(), p[1].clone()]);
                            r[k] = Value::Seq(vec![p[0].clone(), f[1].clone()]);
                            out.push(("exchanged".into(), Value::Seq(r)));
                        }
                    }
                }
            }
        }
        Value::Map(kvs) => {
            for k in 0..kvs.len() {
                let mut m = kvs.clone();
                m.remove(k);
                out.push((format!("drop{k}"), Value::Map(m)));
            }
            let mut m = kvs.clone();
            m.push((Value::Str("more".into()), Value::U(1)));
            out.push(("more".into(), Value::Map(m)));
            out.push(("type".into(), Value::Seq(vec![])));
        }
        Value::Variant(_, x) => out.push((
            "variant".into(),
            Value::Variant("NoSuchVariant".into(), x.clone()),
        )),
    }
    out.retain(|(_, x)| x != v);
    out
}

/// An alteration of one message: which part, where, how, and what it becomes.
#[derive(Clone)]
pub struct Alt {
    pub part: usize,
    pub place: String,
    pub how: String,
    pub path: Vec<usize>,
    /// `None` for the whole part
    pub to: Option<Value>,
    pub raw: Option<Vec<u8>>,
}
impl Alt {
    pub fn apply(&self, m: &mut ProtocolMessage) {
        match &self.to {
            None => set_part(m, self.part, self.raw.clone()),
            Some(x) => {
                if let Some(mut v) = part(m, self.part).and_then(|b| Value::from_bytes(&b).ok()) {
                    if put(&mut v, &self.path, x.clone()) {
                        set_part(m, self.part, Some(v.to_bytes()));
                    }
                }
            }
        }
    }
}
/// All alterations of a message. `others` are messages from elsewhere to take pieces from.
pub fn alts(
    m: &ProtocolMessage,
    special: &[Vec<u8>],
    others: &[(&str, &ProtocolMessage)],
) -> Vec<Alt> {
    let mut out = vec![];
    for p in 0..3 {
        let whole = |how: &str, raw: Option<Vec<u8>>| Alt {
            part: p,
            place: "whole".into(),
            how: how.into(),
            path: vec![],
            to: None,
            raw,
        };
        let Some(b) = part(m, p) else {
            out.push(whole("unexpected", Some(Value::U(1).to_bytes())));
            for q in 0..3 {
                if let Some(b) = part(m, q) {
                    out.push(whole("unexpected", Some(b)));
                }
            }
            continue;
        };
        out.push(whole("none", None));
        out.push(whole("garbage", Some(vec![0xff; 7])));
        out.push(whole("nothing", Some(vec![])));
        out.push(whole("unit", Some(Value::Unit.to_bytes())));
        out.push(whole("trailing", Some([&b[..], &[0]].concat())));
        for (n, o) in others {
            if let Some(ob) = part(o, p) {
                if ob != b {
                    out.push(whole(n, Some(ob)));
                }
            }
        }
        let Ok(v) = Value::from_bytes(&b) else {
            continue;
        };
        let mut ps = vec![];
        places(&v, &mut vec![], "", &mut ps);
        for (path, name) in ps {
            let here = at(&v, &path).unwrap();
            for (how, x) in muts(here, special) {
                out.push(Alt {
                    part: p,
                    place: name.clone(),
                    how,
                    path: path.clone(),
                    to: Some(x),
                    raw: None,
                });
            }
            if here.children().is_empty() {
                for (n, o) in others {
                    let x = part(o, p)
                        .and_then(|b| Value::from_bytes(&b).ok())
                        .and_then(|v| at(&v, &path).cloned());
                    if let Some(x) = x {
                        if x != *here {
                            out.push(Alt {
                                part: p,
                                place: name.clone(),
                                how: n.to_string(),
                                path: path.clone(),
                                to: Some(x),
                                raw: None,
                            });
                        }
                    }
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- control of a session

#[derive(Clone)]
pub enum Order {
    Fifo,
    Lifo,
    Random(u64),
    /// Deliver in this order; what is not mentioned comes last
    Script(Vec<(u8, u32, u32, bool)>),
}
/// Round, deviator, another; what the deviator sends instead, what it takes the other's message for
pub type Early = (u8, u32, u32, Alt, Alt);
type Tamper<'a> = Box<dyn FnMut(u8, u32, u32, &mut ProtocolMessage) + 'a>;
pub struct Ctl<'a> {
    pub order: Order,
    pub rng: Rng,
    pub tamper: Tamper<'a>,
    pub misread: Tamper<'a>,
    pub variants: Box<dyn FnMut(u8, u32, u32, &ProtocolMessage) -> Vec<ProtocolMessage> + 'a>,
    pub probed: Box<dyn FnMut(u8, u32, u32, usize, &Verdict, &Proven) + 'a>,
    pub started: Box<dyn FnMut(u8, u32, String) + 'a>,
    pub debug: bool,
    /// Every party has a generator of its own, made from this
    pub seed: Option<u64>,
    pub early: Option<Early>,
    pub reports_anyway: Option<u32>,
}
impl<'a> Ctl<'a> {
    pub fn new(order: Order) -> Self {
        let seed = if let Order::Random(s) = order { s } else { 0 };
        Ctl {
            order,
            rng: Rng::new(seed, "order"),
            tamper: Box::new(|_, _, _, _| ()),
            misread: Box::new(|_, _, _, _| ()),
            variants: Box::new(|_, _, _, _| vec![]),
            probed: Box::new(|_, _, _, _, _, _| ()),
            started: Box::new(|_, _, _| ()),
            debug: false,
            seed: None,
            early: None,
            reports_anyway: None,
        }
    }
}
impl Control<u32> for Ctl<'_> {
    fn tamper(&mut self, round: u8, from: &u32, to: &u32, msg: &mut ProtocolMessage) {
        if let Some((r, dev, _, a, _)) = &self.early {
            if (*r, *dev) == (round, *from) {
                a.apply(msg)
            }
        }
        (self.tamper)(round, *from, *to, msg)
    }
    fn misread(&mut self, round: u8, from: &u32, to: &u32, msg: &mut ProtocolMessage) {
        if let Some((r, dev, other, _, a)) = &self.early {
            if (*r, *dev, *other) == (round, *to, *from) {
                a.apply(msg)
            }
        }
        (self.misread)(round, *from, *to, msg)
    }
    fn reports_anyway(&mut self, party: &u32) -> bool {
        self.reports_anyway == Some(*party)
    }
    fn rng_for(&mut self, party: &u32) -> Option<Box<dyn rand_core::CryptoRngCore>> {
        self.seed.map(|s| {
            Box::new(Rng::new(s, &format!("party {party}"))) as Box<dyn rand_core::CryptoRngCore>
        })
    }
    fn pick(&mut self, queue: &[(u8, u32, u32, bool)]) -> usize {
        match &mut self.order {
            Order::Fifo => 0,
            Order::Lifo => queue.len() - 1,
            Order::Random(_) => self.rng.below(queue.len()),
            Order::Script(s) => {
                while let Some(x) = s.first() {
                    if let Some(k) = queue.iter().position(|y| y == x) {
                        s.remove(0);
                        return k;
                    }
                    s.remove(0);
                }
                0
            }
        }
    }
    fn variants(
        &mut self,
        round: u8,
        from: &u32,
        to: &u32,
        msg: &ProtocolMessage,
    ) -> Vec<ProtocolMessage> {
        (self.variants)(round, *from, *to, msg)
    }
    fn probed(
        &mut self,
        round: u8,
        from: &u32,
        to: &u32,
        idx: usize,
        verdict: &Verdict,
        evidence: &Proven,
    ) {
        (self.probed)(round, *from, *to, idx, verdict, evidence)
    }
    fn started(&mut self, round: u8, party: &u32, debug: &dyn Fn() -> String) {
        if self.debug {
            (self.started)(round, *party, debug())
        }
    }
}
/// An entry point that may take part in another session.
pub struct Dev<EP: EntryPoint<u32>> {
    pub inner: EP,
    pub sr: Option<Vec<u8>>,
}
impl<EP: EntryPoint<u32>> EntryPoint<u32> for Dev<EP> {
    type Protocol = EP::Protocol;
    fn entry_round_id() -> RoundId {
        EP::entry_round_id()
    }
    fn make_round(
        self,
        rng: &mut dyn rand_core::CryptoRngCore,
        sr: &[u8],
        id: &u32,
    ) -> Result<BoxedRound<u32, Self::Protocol>, LocalError> {
        let sr = self.sr.unwrap_or_else(|| sr.to_vec());
        self.inner.make_round(rng, &sr, id)
    }
}

pub fn format_of(name: &str) -> BoxedFormat {
    BoxedFormat {
        human_readable: name == "hr",
    }
}
pub fn randomness(c: &J) -> Vec<u8> {
    let mut sr = vec![0; 32];
    rand_core::RngCore::fill_bytes(
        &mut Rng::new(
            0,
            &format!(
                "shared {}",
                if c.has("session") {
                    c.get("session").i()
                } else {
                    0
                }
            ),
        ),
        &mut sr,
    );
    sr
}
pub fn order_of(c: &J) -> Order {
    match c.get("order").s() {
        "lifo" => Order::Lifo,
        "random" => Order::Random(c.get("k").i() as u64),
        "script" => Order::Script(
            c.get("script")
                .a()
                .iter()
                .map(|x| {
                    (
                        x.a()[0].i() as u8,
                        x.a()[1].i() as u32,
                        x.a()[2].i() as u32,
                        x.a()[3].b(),
                    )
                })
                .collect(),
        ),
        _ => Order::Fifo,
    }
}
pub type RunOf<K> = Run<u32, <<K as Kind>::EP as EntryPoint<u32>>::Protocol>;

pub fn session<K: Kind>(
    k: &K,
    rng: &mut Rng,
    sr: &[u8],
    format: &BoxedFormat,
    ctl: &mut Ctl<'_>,
) -> RunOf<K> {
    sim::run(rng, k.entries(), sr, format, ctl, k.assoc().as_ref())
}

/// What happened in a session, for the specification.
pub fn record<K: Kind>(k: &K, run: &RunOf<K>, ev: &mut J) {
    let assoc = k.assoc();
    let events = run.events.iter().map(|e| match e {
        Event::Start { party, error } => obj! {"ev" => "start", "p" => *party, "round" => 0, "from" => 0, "what" => if error.is_none() { "ok" } else { "err" }},
        Event::Receive { party, round, from, verdict } => {
            obj! {"ev" => "recv", "p" => *party, "round" => *round, "from" => *from, "what" => verdict.name()}
        }
        Event::Echo { party, round, ok } => obj! {"ev" => "echo", "p" => *party, "round" => *round, "from" => 0, "what" => if *ok { "ok" } else { "bad" }},
        Event::Finalize { party, round, next } => {
            let what = next.split(':').next().unwrap().to_string();
            obj! {"ev" => "fin", "p" => *party, "round" => *round, "from" => 0, "what" => what}
        }
    });
    ev.push("events", J::A(events.collect()));
    let parties = run.parties.iter().map(|(id, p)| {
        let (class, msg) = match p.outcome.class() {
            Class::Result => ("result", String::new()),
            Class::Stopped => ("stopped", String::new()),
            Class::LocalError(e) => ("local", e),
            Class::Panic(e) => ("panic", e),
        };
        let blamed = p.blamed.iter().map(|(round, who, v)| {
            let proof = match (p.evidence.get(who), &assoc) {
                (Some(e), Some(a)) => e.proven(a),
                _ => Proven::None,
            };
            let text = match &proof {
                Proven::No(e) | Proven::Local(e) | Proven::Panic(e) => e.clone(),
                _ => String::new(),
            };
            obj! {"who" => *who, "round" => *round, "kind" => v.name(), "proof" => proof.name(), "msg" => v.text(), "why" => text}
        });
        let mut j = obj! {
            "id" => *id, "class" => class, "msg" => msg, "last" => p.last_round,
            "missing" => J::A(p.missing.iter().map(|x| J::from(*x)).collect()), "blamed" => J::A(blamed.collect())
        };
        if let sim::Outcome::Result(r) = &p.outcome {
            j.push("result", k.show(*id, r));
        }
        j
    });
    ev.push("parties", J::A(parties.collect()));
}
