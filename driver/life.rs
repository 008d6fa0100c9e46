// Histories of one key: the operations of a plan one after the other, with the results of one being what the next
// starts with (see LifeSpec).
use super::entities::{add, numbers, pairs, thr, vkj};
use super::paillier::*;
use super::protocols::{AuxGenK, KeyInitK, RefreshK, ReshareK, SignK};
use super::session::*;
use super::util::*;
use crate::curve::{DeriveChildKey, PublicTweakable, SecretTweakable};
use crate::entities::*;
use crate::params::SchemeParams;
use ecdsa::{SigningKey, VerifyingKey};
use manul::sim::Outcome;
use std::collections::{BTreeMap, BTreeSet};
use std::prelude::v1::*;
use std::{format, vec};

type Adds<P> = BTreeMap<u32, KeyShare<P, u32>>;
type Thrs<P> = BTreeMap<u32, ThresholdKeyShare<P, u32>>;
#[derive(Clone)]
enum Form<P: SchemeParams> {
    None,
    Add(Adds<P>),
    Thr(Thrs<P>),
}
struct Life<P: SchemeParams> {
    now: Form<P>,
    prev: Form<P>,
    aux: BTreeMap<u32, AuxInfo<P, u32>>,
}

fn set(j: &J, name: &str) -> BTreeSet<u32> {
    numbers(j, name).into_iter().collect()
}
/// Runs a session in a random order of delivery; the results, if all have one.
fn all<K: Kind>(k: &K, rng: &mut Rng, ev: &mut J) -> Option<BTreeMap<u32, Res<K::EP>>> {
    let mut sr = vec![0; 32];
    rand_core::RngCore::fill_bytes(rng, &mut sr);
    let mut ctl = Ctl::new(Order::Random(rng.below(1 << 30) as u64));
    let format = format_of(if rng.below(2) == 0 { "hr" } else { "bin" });
    let run = session(k, rng, &sr, &format, &mut ctl);
    let mut whole = obj! {};
    record(k, &run, &mut whole);
    let parties = whole.get("parties").a().iter().map(|p| {
        let mut j = obj! {"id" => p.get("id").clone(), "class" => p.get("class").clone(), "blamed" => J::A(p.get("blamed").a().iter().map(|b| b.get("who").clone()).collect())};
        if p.has("result") {
            j.push("result", p.get("result").clone());
        }
        j
    });
    ev.push("parties", J::A(parties.collect()));
    ev.push("input", k.inputs());
    let mut out = BTreeMap::new();
    let n = run.parties.len();
    for (id, p) in run.parties {
        if let Outcome::Result(r) = p.outcome {
            out.insert(id, r);
        }
    }
    (out.len() == n).then_some(out)
}
/// The shares with which `ids` act together.
fn using<P: SchemeParams>(f: &Form<P>, ids: &BTreeSet<u32>) -> Option<Adds<P>> {
    match f {
        Form::None => None,
        Form::Add(s) => Some(
            s.iter()
                .filter(|(k, _)| ids.contains(k))
                .map(|(k, s)| (*k, s.clone()))
                .collect(),
        ),
        Form::Thr(s) => ids
            .iter()
            .map(|k| Some((*k, s.get(k)?.to_key_share(ids).ok()?)))
            .collect(),
    }
}
fn again<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(x: &T, hr: bool) -> Option<T> {
    let bytes = to_value(x, hr).ok()?.to_bytes();
    from_value(&Value::from_bytes(&bytes).ok()?, hr).ok()
}
fn name<T>(r: &Result<Option<T>, String>) -> &'static str {
    match r {
        Err(_) => "panic",
        Ok(None) => "err",
        Ok(Some(_)) => "ok",
    }
}
fn path(o: &J) -> bip32::DerivationPath {
    let text = o
        .get("path")
        .a()
        .iter()
        .fold("m".to_string(), |t, k| format!("{t}/{}", k.i()));
    let text = if o.get("do").s() == "hard" {
        text + "'"
    } else {
        text
    };
    text.parse().expect("plan: no such path")
}

impl<P: SchemeParams> Life<P>
where
    VerifyingKey<P::Curve>: PublicTweakable,
    SigningKey<P::Curve>: SecretTweakable,
{
    /// Does it; says whether it was possible.
    fn act(&mut self, o: &J, rng: &mut Rng, ev: &mut J) -> Option<()> {
        let q = set(o, "q");
        let t = o.get("t").i() as usize;
        match o.get("do").s() {
            "init" => {
                self.now = Form::Add(all(
                    &KeyInitK::<P> {
                        ids: q,
                        p: Default::default(),
                    },
                    rng,
                    ev,
                )?);
            }
            "deal" => {
                self.now = Form::Thr(ThresholdKeyShare::new_centralized(rng, &q, t, None).ok()?)
            }
            "auxgen" => {
                self.aux = all(
                    &AuxGenK::<P> {
                        ids: q,
                        p: Default::default(),
                    },
                    rng,
                    ev,
                )?
            }
            "auxdeal" => self.aux = AuxInfo::new_centralized(rng, &q),
            "refresh" => {
                let Form::Add(shares) = &self.now else {
                    return None;
                };
                let r = all(
                    &RefreshK {
                        shares: shares.clone(),
                    },
                    rng,
                    ev,
                )?;
                let mut new = BTreeMap::new();
                self.aux.clear();
                for (k, (change, aux)) in r {
                    new.insert(k, shares[&k].clone().update(change).ok()?);
                    self.aux.insert(k, aux);
                }
                self.prev = self.now.clone();
                self.now = Form::Add(new);
            }
            "sign" | "stale" => {
                let mut shares = using(&self.now, &q)?;
                ev.push("fresh", true);
                ev.push("vk", vkj::<P>(&shares.values().next()?.verifying_key()));
                if o.get("do").s() == "stale" {
                    let who = o.get("who").i() as u32;
                    let old = using(&self.prev, &q)?.remove(&who)?;
                    let same = old.secret_share().expose_secret()
                        == shares[&who].secret_share().expose_secret();
                    shares.insert(who, old);
                    ev.push("fresh", same);
                }
                let mut message = vec![0; <elliptic_curve::FieldBytes<P::Curve>>::default().len()];
                rand_core::RngCore::fill_bytes(rng, &mut message);
                let aux = q
                    .iter()
                    .map(|k| Some((*k, self.aux.get(k)?.clone().subset(&q).ok()?)))
                    .collect::<Option<_>>()?;
                all(
                    &SignK {
                        shares,
                        aux,
                        message,
                    },
                    rng,
                    ev,
                );
            }
            "tothr" => {
                let Form::Add(s) = &self.now else { return None };
                self.now = Form::Thr(
                    s.iter()
                        .map(|(k, s)| (*k, ThresholdKeyShare::from_key_share(s)))
                        .collect(),
                );
            }
            "toadd" => {
                let s = using(&self.now, &q)?;
                self.now = Form::Add(s);
            }
            "reshare" => {
                let Form::Thr(s) = &self.now else { return None };
                let k = ReshareK {
                    old: s.clone(),
                    quorum: q,
                    new: set(o, "new"),
                    threshold: t,
                };
                let new = all(&k, rng, ev)?
                    .into_iter()
                    .filter_map(|(k, r)| Some((k, r?)))
                    .collect();
                self.prev = self.now.clone();
                self.now = Form::Thr(new);
            }
            "derive" => {
                let Form::Thr(s) = &self.now else { return None };
                let new = s
                    .iter()
                    .map(|(k, s)| Some((*k, s.derive_bip32(&path(o)).ok()?)))
                    .collect::<Option<_>>()?;
                self.prev = self.now.clone();
                self.now = Form::Thr(new);
            }
            "store" => {
                let hr = rng.below(2) == 0;
                self.now = match &self.now {
                    Form::None => return None,
                    Form::Add(s) => Form::Add(
                        s.iter()
                            .map(|(k, s)| Some((*k, again(s, hr)?)))
                            .collect::<Option<_>>()?,
                    ),
                    Form::Thr(s) => Form::Thr(
                        s.iter()
                            .map(|(k, s)| Some((*k, again(s, hr)?)))
                            .collect::<Option<_>>()?,
                    ),
                };
                self.aux = self
                    .aux
                    .iter()
                    .map(|(k, s)| Some((*k, again(s, hr)?)))
                    .collect::<Option<_>>()?;
            }
            // these are to be refused: what each holder says to it
            "few" => {
                let Form::Thr(s) = &self.now else { return None };
                let said = s
                    .values()
                    .map(|s| J::from(name(&guarded(|| s.to_key_share(&q).ok()))));
                ev.push("said", J::A(said.collect()));
            }
            "hard" => {
                let Form::Thr(s) = &self.now else { return None };
                let said = s.values().flat_map(|s| {
                    [
                        J::from(name(&guarded(|| s.derive_bip32(&path(o)).ok()))),
                        J::from(name(&guarded(|| {
                            s.derive_verifying_key_bip32(&path(o)).ok()
                        }))),
                    ]
                });
                ev.push("said", J::A(said.collect()));
            }
            x => panic!("plan: {x}"),
        }
        Some(())
    }
    fn show(&self) -> J {
        let (kind, shares) = match &self.now {
            Form::None => ("none", vec![]),
            Form::Add(s) => ("add", s.values().map(add).collect()),
            Form::Thr(s) => ("thr", s.values().map(thr).collect()),
        };
        let aux = pairs(self.aux.iter().map(|(k, a)| (*k, a)), |a| {
            J::A(a.public().as_map().keys().map(|k| J::from(*k)).collect())
        });
        obj! {"kind" => kind, "shares" => J::A(shares), "aux" => aux}
    }
    /// For telling whether anything changed
    fn auxiliary(&self) -> Vec<Value> {
        self.aux.values().map(val).collect()
    }
}

fn history<P: SchemeParams>(c: &J, seed: u64) -> Vec<J>
where
    VerifyingKey<P::Curve>: PublicTweakable,
    SigningKey<P::Curve>: SecretTweakable,
{
    let mut rng = Rng::new(seed, &c.render());
    let mut life = Life::<P> {
        now: Form::None,
        prev: Form::None,
        aux: BTreeMap::new(),
    };
    let mut out = vec![];
    for (k, o) in c.get("steps").a().iter().enumerate() {
        let mut ev = obj! {"op" => "life", "params" => c.get("params").clone(), "k" => c.get("k").clone(), "step" => k as u32 + 1, "o" => o.clone()};
        let aux = life.auxiliary();
        let r = guarded(std::panic::AssertUnwindSafe(|| {
            life.act(o, &mut rng, &mut ev)
        }));
        let res = name(&r);
        ev.push("res", res);
        ev.push("aux_same", aux == life.auxiliary());
        match guarded(std::panic::AssertUnwindSafe(|| life.show())) {
            Ok(s) => ev.push("after", s),
            Err(e) => {
                ev.push("after", obj! {"kind" => "panic", "shares" => J::A(vec![]), "aux" => J::A(vec![]), "why" => e});
                out.push(ev);
                break;
            }
        }
        out.push(ev);
        if res != "ok" {
            break;
        }
    }
    out
}

pub fn run(ctx: &Ctx) {
    let plan = ctx.plan();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(c) = plan.get(k) else { break };
                let t = std::time::Instant::now();
                let r = match c.get("params").s() {
                    "p112" => history::<crate::k256::ProductionParams112>(c, ctx.seed),
                    _ => history::<crate::dev::TestParams>(c, ctx.seed),
                };
                std::eprintln!("{:?} {} {}", t.elapsed(), r.len(), c.render());
                done.lock().unwrap().insert(k, r);
            });
        }
    });
    let mut out = Out::default();
    for e in done.into_inner().unwrap().into_values().flatten() {
        out.ev(e);
    }
    ctx.save(&out);
}
