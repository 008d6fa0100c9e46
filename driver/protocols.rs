// The protocols of the library as kinds of sessions.
use super::curve::{ptj, scalar, scj};
use super::entities::{add, inf, numbers, pairs, thr, vkj};
use super::forge::{self, Forged, Scene};
use super::paillier::*;
use super::session::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::entities::Sid;
use crate::entities::*;
use crate::paillier::{PublicKeyPaillierWire, RPParamsWire};
use crate::params::SchemeParams;
use crate::protocols::{aux_gen, interactive_signing, key_init, key_refresh, key_resharing};
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, HashOutput, Hasher};
use crate::zk::{PrmProof, SchCommitment};
use crypto_bigint::modular::Retrieve;
use manul::protocol::*;
use manul::sim::{self, Assoc, Evidence, EvidenceKind, Proven, Verdict};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::prelude::v1::*;
use std::{format, vec};

type As<K> = Option<Assoc<u32, <<K as Kind>::EP as EntryPoint<u32>>::Protocol>>;

pub(super) fn auxj<P: SchemeParams>(a: &AuxInfo<P, u32>) -> J {
    let one = |x: &PublicAuxInfo<P>| {
        let rp = x.rp_params.to_precomputed();
        obj! {"n" => nj(x.paillier_pk.modulus()), "rn" => nj(rp.modulus()), "t" => nj(&rp.base_randomizer().retrieve()), "s" => nj(&rp.base_value().retrieve())}
    };
    let sk = a.secret.paillier_sk.clone().into_precomputed();
    obj! {
        "owner" => *a.owner(), "public" => pairs(a.public().as_map().iter().map(|(k, x)| (*k, x)), |x| one(x)),
        "p" => sz(&sk.p_signed()).get("mag").clone(), "q" => sz(&sk.q_signed()).get("mag").clone()
    }
}

type Errs<K> = Vec<(
    u8,
    String,
    <<<K as Kind>::EP as EntryPoint<u32>>::Protocol as Protocol<u32>>::ProtocolError,
)>;
/// An error as a claim against somebody, put together from its serialized form.
fn error<E: for<'a> serde::Deserialize<'a>>(
    name: &str,
    fields: &[(&str, Value)],
    phantom: bool,
) -> E {
    let f = |k: &str, v: Value| (Value::Str(k.into()), v);
    let inner = match fields {
        [] => Value::Unit,
        _ => Value::Map(fields.iter().map(|(k, v)| f(k, v.clone())).collect()),
    };
    let mut m = vec![f("error", Value::Variant(name.into(), Box::new(inner)))];
    if phantom {
        m.push(f("phantom", Value::Unit));
    }
    from_value(&Value::Map(m), false).unwrap_or_else(|e| panic!("driver: {name}: {e}"))
}
pub(super) fn value(m: &ProtocolMessage, p: usize) -> Option<Value> {
    Value::from_bytes(&part(m, p)?).ok()
}
pub(super) fn take<T: for<'a> serde::Deserialize<'a>>(
    v: &Value,
    name: &str,
    hr: bool,
) -> Option<T> {
    let f = v.children().into_iter().find(|(n, _)| n == name)?.1;
    from_value(f, hr).ok()
}
/// A map of parties
pub(super) fn take_map<T: for<'a> serde::Deserialize<'a>>(
    v: &Value,
    name: &str,
    hr: bool,
) -> Option<BTreeMap<u32, T>> {
    let list: Vec<(u32, T)> = take(v, name, hr)?;
    let n = list.len();
    let map: BTreeMap<u32, T> = list.into_iter().collect();
    (map.len() == n).then_some(map)
}
/// Chains everything but what is to be left out: bit k of `skip` stands for the k-th value.
macro_rules! chain {
    ($h:expr, $skip:expr, $($x:expr),* $(,)?) => {{
        let mut h = $h;
        let mut k = 0;
        $(
            let x = $x;
            h = if $skip >> k & 1 == 0 { h.chain(&x) } else { h };
            k += 1;
        )*
        let _ = k;
        h
    }};
}
fn hasher<P: SchemeParams>() -> Hasher<P::Digest> {
    Hasher::<P::Digest>::new_with_dst(b"KeyInit")
}
fn commitment(v: HashOutput, hr: bool) -> Option<Vec<u8>> {
    Some(Value::Map(vec![(Value::Str("cap_v".into()), to_value(&v, hr).ok()?)]).to_bytes())
}
fn olds<P: SchemeParams>(s: &BTreeMap<u32, KeyShare<P, u32>>) -> J {
    obj! {"old" => J::A(s.values().map(add).collect()), "vk" => vkj::<P>(&s.values().next().unwrap().verifying_key())}
}

pub struct KeyInitK<P: SchemeParams> {
    pub ids: BTreeSet<u32>,
    pub p: std::marker::PhantomData<P>,
}
impl<P: SchemeParams> Kind for KeyInitK<P> {
    type EP = crate::KeyInit<P, u32>;
    fn name(&self) -> &'static str {
        "keyinit"
    }
    fn committed(&self) -> &'static [&'static str] {
        &["session", "owner", "cap_x", "cap_a", "rho", "u"]
    }
    fn entries(&self) -> BTreeMap<u32, Self::EP> {
        self.ids
            .iter()
            .map(|k| (*k, crate::KeyInit::new(self.ids.clone()).unwrap()))
            .collect()
    }
    fn assoc(&self) -> As<Self> {
        Some(crate::KeyInitAssociatedData {
            ids: self.ids.clone(),
        })
    }
    fn show(&self, _: u32, r: &KeyShare<P, u32>) -> J {
        add(r)
    }
    fn errors(&self, _: &[u32]) -> Errs<Self> {
        vec![
            (
                2,
                "R2HashMismatch".into(),
                error("R2HashMismatch", &[], true),
            ),
            (
                3,
                "R3InvalidSchProof".into(),
                error("R3InvalidSchProof", &[], true),
            ),
        ]
    }
    fn recommit(
        &self,
        sr: &[u8],
        dev: u32,
        hr: bool,
        m: &ProtocolMessage,
        skip: u32,
    ) -> Option<Vec<u8>> {
        let (e, n) = (value(m, 0)?, value(m, 1)?);
        let h = chain!(
            hasher::<P>(),
            skip,
            Sid::new::<P, u32>(sr, &self.ids),
            dev,
            take::<Point<P>>(&n, "cap_x", hr)?,
            take::<SchCommitment<P>>(&n, "cap_a", hr)?,
            take::<BitVec>(&e, "rho", hr)?,
            take::<BitVec>(&n, "u", hr)?
        );
        commitment(h.finalize(P::SECURITY_BITS), hr)
    }
}

pub struct AuxGenK<P: SchemeParams> {
    pub ids: BTreeSet<u32>,
    pub p: std::marker::PhantomData<P>,
}
impl<P: SchemeParams> Kind for AuxGenK<P> {
    type EP = crate::AuxGen<P, u32>;
    fn name(&self) -> &'static str {
        "auxgen"
    }
    fn committed(&self) -> &'static [&'static str] {
        &[
            "session",
            "owner",
            "paillier_pk",
            "rp_params",
            "psi",
            "rid",
            "u",
        ]
    }
    fn forge(&self, s: &Scene<'_>) -> Forged {
        forge::aux_messages::<P>(s, &self.ids, false, &|m| {
            self.recommit(s.sr, s.dev, s.hr, m, 0)
        })
    }
    fn entries(&self) -> BTreeMap<u32, Self::EP> {
        self.ids
            .iter()
            .map(|k| (*k, crate::AuxGen::new(self.ids.clone()).unwrap()))
            .collect()
    }
    fn assoc(&self) -> As<Self> {
        Some(crate::AuxGenAssociatedData {
            ids: self.ids.clone(),
        })
    }
    fn show(&self, _: u32, r: &AuxInfo<P, u32>) -> J {
        auxj(r)
    }
    fn errors(&self, ids: &[u32]) -> Errs<Self> {
        let mut out: Errs<Self> = [
            "R2HashMismatch",
            "R2PaillierModulusTooSmall",
            "R2RPModulusTooSmall",
            "R2PrmFailed",
            "R3ModFailed",
        ]
        .iter()
        .map(|n| (n[1..2].parse().unwrap(), n.to_string(), error(n, &[], true)))
        .collect();
        for k in ids {
            out.push((
                3,
                "R3FacFailed".into(),
                error(
                    "R3FacFailed",
                    &[("reported_by", Value::U(*k as u128))],
                    true,
                ),
            ));
        }
        out
    }
    fn recommit(
        &self,
        sr: &[u8],
        dev: u32,
        hr: bool,
        m: &ProtocolMessage,
        skip: u32,
    ) -> Option<Vec<u8>> {
        let (e, n) = (value(m, 0)?, value(m, 1)?);
        let h = chain!(
            hasher::<P>(),
            skip,
            Sid::new::<P, u32>(sr, &self.ids),
            dev,
            take::<PublicKeyPaillierWire<P::Paillier>>(&n, "paillier_pk", hr)?,
            take::<RPParamsWire<P::Paillier>>(&e, "rp_params", hr)?,
            take::<PrmProof<P>>(&n, "psi", hr)?,
            take::<BitVec>(&e, "rid", hr)?,
            take::<BitVec>(&n, "u", hr)?
        );
        commitment(h.finalize(P::SECURITY_BITS), hr)
    }
}

pub struct RefreshK<P: SchemeParams> {
    pub shares: BTreeMap<u32, KeyShare<P, u32>>,
}
impl<P: SchemeParams> RefreshK<P> {
    fn ids(&self) -> BTreeSet<u32> {
        self.shares.keys().copied().collect()
    }
}
impl<P: SchemeParams> Kind for RefreshK<P> {
    type EP = crate::KeyRefresh<P, u32>;
    fn name(&self) -> &'static str {
        "refresh"
    }
    fn committed(&self) -> &'static [&'static str] {
        &[
            "session",
            "owner",
            "cap_xs",
            "cap_ys",
            "cap_as",
            "paillier_pk",
            "rp_params",
            "psi",
            "rid",
            "u",
        ]
    }
    fn forge(&self, s: &Scene<'_>) -> Forged {
        forge::aux_messages::<P>(s, &self.ids(), true, &|m| {
            self.recommit(s.sr, s.dev, s.hr, m, 0)
        })
    }
    fn entries(&self) -> BTreeMap<u32, Self::EP> {
        self.shares
            .keys()
            .map(|k| (*k, crate::KeyRefresh::new(self.ids()).unwrap()))
            .collect()
    }
    fn assoc(&self) -> As<Self> {
        Some(crate::KeyRefreshAssociatedData { ids: self.ids() })
    }
    fn inputs(&self) -> J {
        olds(&self.shares)
    }
    fn errors(&self, ids: &[u32]) -> Errs<Self> {
        let names = [
            "R2HashMismatch",
            "R2WrongIdsX",
            "R2WrongIdsY",
            "R2WrongIdsA",
            "R2PaillierModulusTooSmall",
            "R2RPModulusTooSmall",
            "R2NonZeroSumOfChanges",
            "R2PrmFailed",
            "R3ModFailed",
            "R3WrongIdsHatPsi",
        ];
        let mut out: Errs<Self> = names
            .iter()
            .map(|n| {
                (
                    n[1..2].parse().unwrap(),
                    n.to_string(),
                    error(n, &[], false),
                )
            })
            .collect();
        for k in ids {
            let k = Value::U(*k as u128);
            out.push((
                3,
                "R3FacFailed".into(),
                error("R3FacFailed", &[("reported_by", k.clone())], false),
            ));
            out.push((
                3,
                "R3SchFailed".into(),
                error("R3SchFailed", &[("failed_for", k.clone())], false),
            ));
            for y in [Scalar::<P>::ZERO, Scalar::ONE] {
                let y = to_value(&y, false).unwrap();
                out.push((
                    3,
                    "R3ShareChangeMismatch".into(),
                    error(
                        "R3ShareChangeMismatch",
                        &[("reported_by", k.clone()), ("y", y)],
                        false,
                    ),
                ));
            }
        }
        out
    }
    fn recommit(
        &self,
        sr: &[u8],
        dev: u32,
        hr: bool,
        m: &ProtocolMessage,
        skip: u32,
    ) -> Option<Vec<u8>> {
        let (e, n) = (value(m, 0)?, value(m, 1)?);
        let h = chain!(
            hasher::<P>(),
            skip,
            Sid::new::<P, u32>(sr, &self.ids()),
            dev,
            take_map::<Point<P>>(&n, "cap_xs", hr)?,
            take_map::<Point<P>>(&e, "cap_ys", hr)?,
            take_map::<SchCommitment<P>>(&n, "cap_as", hr)?,
            take::<PublicKeyPaillierWire<P::Paillier>>(&n, "paillier_pk", hr)?,
            take::<RPParamsWire<P::Paillier>>(&e, "rp_params", hr)?,
            take::<PrmProof<P>>(&n, "psi", hr)?,
            take::<BitVec>(&e, "rid", hr)?,
            take::<BitVec>(&n, "u", hr)?
        );
        commitment(h.finalize(P::SECURITY_BITS), hr)
    }
    fn show(&self, id: u32, r: &(KeyShareChange<P, u32>, AuxInfo<P, u32>)) -> J {
        let (c, a) = r;
        let new = guarded(|| self.shares[&id].clone().update(c.clone()));
        obj! {
            "owner" => c.owner, "change" => scj(c.secret_share_change.expose_secret()),
            "public" => pairs(c.public_share_changes.iter().map(|(k, x)| (*k, x)), |x| ptj(x)), "aux" => auxj(a),
            "updated" => match &new {
                Ok(Ok(_)) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            },
            "new" => match new {
                Ok(Ok(k)) => add(&k),
                _ => obj! {"owner" => 0, "secret" => J::A(vec![]), "public" => J::A(vec![]), "vk" => inf()},
            }
        }
    }
}

pub struct SignK<P: SchemeParams> {
    pub shares: BTreeMap<u32, KeyShare<P, u32>>,
    pub aux: BTreeMap<u32, AuxInfo<P, u32>>,
    pub message: Vec<u8>,
}
impl<P: SchemeParams> SignK<P> {
    fn message(&self) -> elliptic_curve::FieldBytes<P::Curve> {
        elliptic_curve::FieldBytes::<P::Curve>::clone_from_slice(&self.message)
    }
}
impl<P: SchemeParams> Kind for SignK<P> {
    type EP = crate::InteractiveSigning<P, u32>;
    fn name(&self) -> &'static str {
        "signing"
    }
    fn entries(&self) -> BTreeMap<u32, Self::EP> {
        self.shares
            .keys()
            .map(|k| {
                (
                    *k,
                    crate::InteractiveSigning::new(
                        self.message(),
                        self.shares[k].clone(),
                        self.aux[k].clone(),
                    )
                    .unwrap(),
                )
            })
            .collect()
    }
    fn assoc(&self) -> As<Self> {
        let k = self.shares.keys().next().unwrap();
        crate::InteractiveSigningAssociatedData::new(
            self.message(),
            self.shares[k].public().clone(),
            self.aux[k].public().clone(),
        )
        .ok()
    }
    fn inputs(&self) -> J {
        let mut j = olds(&self.shares);
        j.push("z", scj(&Scalar::<P>::from_reduced_bytes(self.message())));
        j.push("m", limbs(&self.message));
        j
    }
    fn keys(&self) -> J {
        J::A(self.aux.values().map(auxj).collect())
    }
    fn errors(&self, ids: &[u32]) -> Errs<Self> {
        let names = [
            "R1EncElg0Failed",
            "R1EncElg1Failed",
            "R2WrongIdsD",
            "R2WrongIdsF",
            "R2WrongIdsPsi",
            "R2ElogFailed",
            "R3ElogFailed",
            "R4InvalidSignatureShare",
            "R5DecFailed",
            "R5WrongIdsPsi",
            "R6DecFailed",
            "R6WrongIdsPsi",
        ];
        let mut out: Errs<Self> = names
            .iter()
            .map(|n| (n[1..2].parse().unwrap(), n.to_string(), error(n, &[], true)))
            .collect();
        for k in ids {
            for n in [
                "R2AffGPsiFailed",
                "R2AffGHatPsiFailed",
                "R5AffGStarFailed",
                "R6AffGStarFailed",
            ] {
                out.push((
                    n[1..2].parse().unwrap(),
                    n.into(),
                    error(n, &[("failed_for", Value::U(*k as u128))], true),
                ));
            }
        }
        out
    }
    fn special(&self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for a in self.aux.values() {
            let x = &a.public().as_map()[a.owner()];
            out.push(x.paillier_pk.modulus().to_be_bytes().to_vec());
            let sk = a.secret.paillier_sk.clone().into_precomputed();
            out.push(
                sk.p_signed()
                    .abs_value()
                    .expose_secret()
                    .to_be_bytes()
                    .to_vec(),
            );
            out.push(
                x.rp_params
                    .to_precomputed()
                    .modulus()
                    .to_be_bytes()
                    .to_vec(),
            );
        }
        for x in &mut out {
            let k = x.iter().take_while(|b| **b == 0).count();
            x.drain(..k);
        }
        out
    }
    fn show(&self, _: u32, r: &crate::RecoverableSignature<P>) -> J {
        let (sig, id) = r.clone().to_backend();
        let (r, s) = sig.split_bytes();
        obj! {"r" => limbs(&r), "s" => limbs(&s), "id" => id.to_byte()}
    }
}

pub struct ReshareK<P: SchemeParams> {
    pub old: BTreeMap<u32, ThresholdKeyShare<P, u32>>,
    /// those of the old holders that take part
    pub quorum: BTreeSet<u32>,
    pub new: BTreeSet<u32>,
    pub threshold: usize,
}
impl<P: SchemeParams> Kind for ReshareK<P> {
    type EP = crate::KeyResharing<P, u32>;
    fn name(&self) -> &'static str {
        "resharing"
    }
    fn forge(&self, s: &Scene<'_>) -> Forged {
        let ids = crate::tools::sss::shamir_evaluation_points(self.new.len());
        forge::polynomials::<P>(s, &self.new.iter().copied().zip(ids).collect())
    }
    fn entries(&self) -> BTreeMap<u32, Self::EP> {
        let any = self.old.values().next().unwrap();
        self.quorum
            .union(&self.new)
            .map(|k| {
                let old = self.quorum.contains(k).then(|| crate::OldHolder {
                    key_share: self.old[k].clone(),
                });
                let new = self.new.contains(k).then(|| crate::NewHolder {
                    verifying_key: any.verifying_key().unwrap(),
                    old_threshold: any.threshold(),
                    old_holders: self.quorum.clone(),
                });
                (
                    *k,
                    crate::KeyResharing::new(old, new, self.new.clone(), self.threshold),
                )
            })
            .collect()
    }
    fn assoc(&self) -> As<Self> {
        Some(())
    }
    fn inputs(&self) -> J {
        let any = self.old.values().next().unwrap();
        obj! {
            "vk" => vkj::<P>(&any.verifying_key().unwrap()), "t" => self.threshold, "quorum" => J::A(self.quorum.iter().map(|x| J::from(*x)).collect()),
            "new" => J::A(self.new.iter().map(|x| J::from(*x)).collect()), "old" => J::A(self.old.values().map(thr).collect())
        }
    }
    fn show(&self, _: u32, r: &Option<ThresholdKeyShare<P, u32>>) -> J {
        match r {
            Some(t) => obj! {"some" => true, "share" => thr(t)},
            None => obj! {"some" => false},
        }
    }
}

type Ev<K> = Evidence<u32, <<K as Kind>::EP as EntryPoint<u32>>::Protocol>;

// ---------------------------------------------------------------- kinds of jobs

/// A protocol with inputs, and the same with inputs of another epoch.
pub struct World<'a, K> {
    pub k: &'a K,
    pub other: &'a K,
    pub c: &'a J,
    pub seed: u64,
    pub early: Option<Early>,
}
fn salt(c: &J, seed: u64) -> u64 {
    let mut r = Rng::new(
        seed,
        &format!("{}{}", c.get("proto").s(), c.get("session").render()),
    );
    r.below(1 << 40) as u64
}
impl<K: Kind> World<'_, K> {
    fn ids(&self) -> Vec<u32> {
        self.k.entries().keys().copied().collect()
    }
    fn ctl(&self) -> Ctl<'static> {
        let mut ctl = Ctl::new(order_of(self.c));
        ctl.seed = Some(salt(self.c, self.seed));
        ctl.early = self.early.clone();
        ctl
    }
    fn format(&self) -> BoxedFormat {
        format_of(self.c.get("format").s())
    }
    fn go(&self, ctl: &mut Ctl<'_>) -> RunOf<K> {
        session(
            self.k,
            &mut Rng::new(0, "unused"),
            &randomness(self.c),
            &self.format(),
            ctl,
        )
    }
    fn event(&self, run: &RunOf<K>) -> J {
        let mut ev = self.c.clone();
        if !ev.has("dev") {
            ev.push("dev", 0);
        }
        ev.push("input", self.k.inputs());
        record(self.k, run, &mut ev);
        ev
    }
    fn honest(&self) -> RunOf<K> {
        self.go(&mut self.ctl())
    }
    /// With an earlier deviation that leads to the rounds that establish who is to blame: `dev` sends the others something else,
    /// and takes what one of them sends for something else.
    fn with_early(self) -> Self {
        if !self.c.has("early") {
            return self;
        }
        let (e, dev) = (
            self.c.get("early").clone(),
            self.c.get("early").get("dev").i() as u32,
        );
        let (round, place) = (e.get("round").i() as u8, e.get("place").s().to_string());
        let first = *self.ids().iter().find(|x| **x != dev).unwrap();
        let honest = self.honest();
        let one = |from, to| {
            let all = self.alterations(&honest, round, from, to);
            all.into_iter()
                .find(|a| a.place == place && a.how == "session")
                .expect("plan: early")
        };
        let early = Some((round, dev, first, one(dev, first), one(first, dev)));
        World { early, ..self }
    }
    /// The results of an honest run.
    fn results(&self, run: &RunOf<K>) -> J {
        if self.early.is_some() {
            let mut ctl = self.ctl();
            ctl.early = None;
            return self.shown(&self.go(&mut ctl));
        }
        self.shown(run)
    }
    fn shown(&self, run: &RunOf<K>) -> J {
        let rs = run.parties.iter().filter_map(|(id, p)| match &p.outcome {
            sim::Outcome::Result(r) => Some(J::A(vec![J::from(*id), self.k.show(*id, r)])),
            _ => None,
        });
        J::A(rs.collect())
    }
    /// An honest run, and its results with first-in-first-out delivery.
    fn run(&self) -> Vec<J> {
        let mut ev = self.event(&self.honest());
        let mut ctl = self.ctl();
        ctl.order = Order::Fifo;
        let mut r = obj! {};
        record(self.k, &self.go(&mut ctl), &mut r);
        ev.push("fifo", r.get("parties").clone());
        vec![ev]
    }
    /// An honest run, and all that was sent in it.
    fn traffic(&self) -> Vec<J> {
        let run = self.honest();
        let mut ev = self.event(&run);
        ev.push("keys", self.k.keys());
        let logs = self.c.get("params").s() == "test";
        let (sent, proofs) = super::traffic::sent(&run.transcript, logs);
        ev.push("sent", sent);
        ev.push("proofs", proofs);
        vec![ev]
    }
    fn field(&self, n: &str) -> u32 {
        self.c.get(n).i() as u32
    }
    /// Alterations of the message from `dev` to `to` in `round`, in an order that visits every place early.
    fn alterations(&self, honest: &RunOf<K>, round: u8, dev: u32, to: u32) -> Vec<Alt> {
        let Some(m) = honest.transcript.get(&(round, dev, to)) else {
            return vec![];
        };
        let mut ctl = self.ctl();
        ctl.seed = ctl.seed.map(|s| s + 1);
        let mut sr = randomness(self.c);
        sr[0] ^= 1;
        let session2 = session(
            self.k,
            &mut Rng::new(0, "unused"),
            &sr,
            &self.format(),
            &mut ctl,
        );
        let mut ctl = self.ctl();
        ctl.seed = ctl.seed.map(|s| s + 2);
        let epoch2 = session(
            self.other,
            &mut Rng::new(0, "unused"),
            &randomness(self.c),
            &self.format(),
            &mut ctl,
        );
        let mut others: Vec<(&str, &ProtocolMessage)> = vec![];
        others.extend(
            session2
                .transcript
                .get(&(round, dev, to))
                .map(|m| ("session", m)),
        );
        others.extend(
            epoch2
                .transcript
                .get(&(round, dev, to))
                .map(|m| ("epoch", m)),
        );
        for ((r, from, x), m) in &honest.transcript {
            if *r == round && *from == dev && *x != to {
                others.push(("recipient", m));
            }
            if *r == round && *from != dev && *x == to {
                others.push(("sender", m));
            }
        }
        let mut all = alts(m, &self.k.special(), &others);
        let mut rng = Rng::new(self.seed, &format!("alterations {round} {dev} {to}"));
        for k in (1..all.len()).rev() {
            all.swap(k, rng.below(k + 1));
        }
        // n-th alteration of its place
        let mut seen: BTreeMap<(usize, Vec<usize>), usize> = BTreeMap::new();
        let mut ranked: Vec<(usize, Alt)> = all
            .into_iter()
            .map(|a| {
                let n = seen.entry((a.part, a.path.clone())).or_insert(0);
                *n += 1;
                let replay = ["session", "epoch", "sender", "recipient"].contains(&a.how.as_str())
                    && a.place == "whole";
                (if replay { 0 } else { *n }, a)
            })
            .collect();
        ranked.sort_by_key(|(n, _)| *n);
        ranked.into_iter().map(|(_, a)| a).collect()
    }
    /// The share of the alterations this case is about.
    fn chosen(&self, all: Vec<Alt>) -> Vec<Alt> {
        let mut all = all;
        if self.c.has("only") {
            let only: Vec<&str> = self.c.get("only").a().iter().map(|x| x.s()).collect();
            all.retain(|a| only.contains(&a.how.as_str()));
        }
        let (k, n, budget) = (
            self.field("chunk") as usize,
            self.field("chunks") as usize,
            self.field("budget") as usize,
        );
        all.into_iter()
            .take(budget)
            .enumerate()
            .filter(|(i, _)| i % n == k)
            .map(|(_, a)| a)
            .collect()
    }
    fn about(&self, mut ev: J, a: &Alt) -> J {
        ev.push("part", PARTS[a.part]);
        ev.push("place", a.place.as_str());
        ev.push("how", a.how.as_str());
        ev
    }
    fn altered(
        &self,
        op: &str,
        a: &Alt,
        round: u8,
        dev: u32,
        to: u32,
        first: Option<Vec<u8>>,
        honest: &RunOf<K>,
    ) -> J {
        let mut ctl = self.ctl();
        let alt = a.clone();
        let whom = move |x: u32| to == 0 || x == to;
        if op == "misread" {
            ctl.misread = Box::new(move |r, _, x, m| {
                if r == round && x == dev {
                    alt.apply(m)
                }
            });
        } else {
            ctl.tamper = Box::new(move |r, from, x, m| {
                if r == round && from == dev && whom(x) {
                    alt.apply(m)
                }
                if let (1, true, Some(v)) = (r, from == dev, &first) {
                    set_part(m, 0, Some(v.clone()));
                }
            });
        }
        let mut ev = self.about(self.event(&self.go(&mut ctl)), a);
        ev.push("op", op);
        ev.push("ref", self.results(honest));
        ev
    }
    /// One party alters one of its messages, for one recipient or all.
    fn tamper(&self) -> Vec<J> {
        let (round, dev, to) = (
            self.field("round") as u8,
            self.field("dev"),
            self.field("to"),
        );
        let honest = self.honest();
        let first = if to == 0 {
            *self
                .ids()
                .iter()
                .find(|x| honest.transcript.contains_key(&(round, dev, **x)))
                .unwrap_or(&0)
        } else {
            to
        };
        let all = self.chosen(self.alterations(&honest, round, dev, first));
        all.iter()
            .map(|a| self.altered("tamper", a, round, dev, to, None, &honest))
            .collect()
    }
    /// The same for what has been committed to before, with the commitment made anew.
    fn commit(&self) -> Vec<J> {
        let (dev, hr, sr) = (
            self.field("dev"),
            self.format().human_readable,
            randomness(self.c),
        );
        let honest = self.honest();
        let first = *self.ids().iter().find(|x| **x != dev).unwrap();
        let m = &honest.transcript[&(2, dev, first)];
        let sent = part(&honest.transcript[&(1, dev, first)], 0);
        let made = |skip| self.k.recommit(&sr, dev, hr, m, skip);
        if made(0).is_none() || made(0) != sent {
            // it is not what the specification has; is something left out?
            let names = self.k.committed();
            let mut out = vec![];
            for skip in 1..1u32 << names.len() {
                if made(skip).is_some() && made(skip) == sent {
                    let open: Vec<&str> = (0..names.len())
                        .filter(|k| skip >> k & 1 == 1)
                        .map(|k| names[k])
                        .collect();
                    let mut ev = self.event(&honest);
                    ev.push("part", "echo");
                    ev.push("place", open.join(" "));
                    ev.push("how", "unbound");
                    ev.push("ref", self.results(&honest));
                    out.push(ev);
                    break;
                }
            }
            return out;
        }
        let all = self.chosen(self.alterations(&honest, 2, dev, first));
        let mut out = vec![];
        for a in &all {
            let mut x = m.clone();
            a.apply(&mut x);
            if let Some(v) = self.k.recommit(&sr, dev, hr, &x, 0) {
                out.push(self.altered("commit", a, 2, dev, 0, Some(v), &honest));
            }
        }
        out
    }
    /// One party computes with something else than what it received.
    fn misread(&self) -> Vec<J> {
        let (round, dev) = (self.field("round") as u8, self.field("dev"));
        let honest = self.honest();
        let first = *self.ids().iter().find(|x| **x != dev).unwrap();
        let all = self.chosen(self.alterations(&honest, round, first, dev));
        all.iter()
            .map(|a| self.altered("misread", a, round, dev, 0, None, &honest))
            .collect()
    }
    /// Everything tried at every receiver, in an honest run; what is accepted is followed in runs of its own.
    fn probe(&self) -> Vec<J> {
        let (round, dev, to) = (
            self.field("round") as u8,
            self.field("dev"),
            self.field("to"),
        );
        let honest = self.honest();
        let all = self.chosen(self.alterations(&honest, round, dev, to));
        let seen = RefCell::new(vec![]);
        let mut ctl = self.ctl();
        ctl.variants = Box::new(|r, from, x, m| {
            if (r, from, x) != (round, dev, to) {
                return vec![];
            }
            let made = all.iter().map(|a| {
                let mut m = m.clone();
                a.apply(&mut m);
                m
            });
            made.collect()
        });
        ctl.probed = Box::new(|_, _, _, i, v, p| seen.borrow_mut().push((i, v.clone(), p.clone())));
        self.go(&mut ctl);
        drop(ctl);
        let (mut out, mut followed) = (vec![], 0);
        for (i, v, p) in seen.into_inner() {
            let mut ev = self.about(self.c.clone(), &all[i]);
            ev.push("verdict", v.name());
            ev.push("proof", p.name());
            ev.push("msg", v.text());
            ev.push(
                "why",
                match p {
                    Proven::No(e) | Proven::Local(e) | Proven::Panic(e) => e,
                    _ => String::new(),
                },
            );
            out.push(ev);
            let limit = if self.early.is_some() { 10 } else { usize::MAX };
            if matches!(v, Verdict::Ok) && followed < limit {
                followed += 1;
                let mut ev = self.altered("tamper", &all[i], round, dev, to, None, &honest);
                ev.push("follow", true);
                out.push(ev);
            }
        }
        out
    }
    /// One party makes up messages that fit together.
    fn forge(&self) -> Vec<J> {
        let (dev, sr, honest) = (self.field("dev"), randomness(self.c), self.honest());
        let made = self.k.forge(&Scene {
            c: self.c,
            seed: self.seed,
            sr: &sr,
            dev,
            hr: self.format().human_readable,
            honest: &honest.transcript,
        });
        let mut ctl = self.ctl();
        ctl.reports_anyway = Some(dev);
        ctl.tamper = Box::new(move |r, from, x, m| {
            if let (true, Some(y)) = (from == dev, made.get(&(r, x))) {
                *m = y.clone();
            }
        });
        vec![self.event(&self.go(&mut ctl))]
    }
    /// One party takes part in another session, or with inputs of another epoch.
    fn foreign(&self) -> Vec<J> {
        let dev = self.field("dev");
        let mut sr = randomness(self.c);
        let mut e: BTreeMap<u32, Dev<K::EP>> = self
            .k
            .entries()
            .into_iter()
            .map(|(k, x)| (k, Dev { inner: x, sr: None }))
            .collect();
        match self.c.get("what").s() {
            "session" => {
                sr[0] ^= 1;
                e.get_mut(&dev).unwrap().sr = Some(sr);
            }
            "epoch" => e.get_mut(&dev).unwrap().inner = self.other.entries().remove(&dev).unwrap(),
            x => panic!("plan: {x}"),
        }
        let assoc = self.k.assoc();
        let run = sim::run(
            &mut Rng::new(0, "unused"),
            e,
            &randomness(self.c),
            &self.format(),
            &mut self.ctl(),
            assoc.as_ref(),
        );
        let mut ev = self.event(&run);
        ev.push("ref", self.results(&self.honest()));
        vec![ev]
    }
    /// Every claim against every party, made of the messages of a run.
    fn frame(&self) -> Vec<J> {
        let run = match self.c.get("what").s() {
            "honest" => self.honest(),
            "tamper" => {
                let (round, dev) = (self.field("round") as u8, self.field("dev"));
                let honest = self.honest();
                let mut ctl = self.ctl();
                let to = *self.ids().iter().find(|x| **x != dev).unwrap();
                let all = self.alterations(&honest, round, dev, to);
                let Some(a) = all
                    .iter()
                    .find(|a| a.place == self.c.get("place").s() && a.how == self.c.get("how").s())
                    .cloned()
                else {
                    return vec![];
                };
                ctl.tamper = Box::new(move |r, from, _, m| {
                    if r == round && from == dev {
                        a.apply(m)
                    }
                });
                self.go(&mut ctl)
            }
            "misread" => {
                // the others get to the last rounds
                let (round, dev) = (self.field("round") as u8, self.field("dev"));
                let honest = self.honest();
                let mut ctl = self.ctl();
                let all = self.alterations(&honest, round, self.field("to"), dev);
                let Some(a) = all
                    .iter()
                    .find(|a| a.place == self.c.get("place").s() && a.how == self.c.get("how").s())
                    .cloned()
                else {
                    return vec![];
                };
                ctl.misread = Box::new(move |r, from, x, m| {
                    if r == round && x == dev && from != dev {
                        a.apply(m)
                    }
                });
                self.go(&mut ctl)
            }
            x => panic!("plan: {x}"),
        };
        let Some(assoc) = self.k.assoc() else {
            return vec![];
        };
        let ids = self.ids();
        let mut named = ids.clone();
        named.push(4_000_000_000);
        let mut out = vec![];
        let mut push =
            |guilty: u32, reporter: u32, round: u8, what: &str, named: u32, p: &Proven| {
                let mut ev = self.c.clone();
                if !ev.has("dev") {
                    ev.push("dev", 0);
                }
                ev.push("guilty", guilty);
                ev.push("reporter", reporter);
                ev.push("claim", what);
                ev.push("named", named);
                ev.push("at", round);
                ev.push("proof", p.name());
                ev.push(
                    "why",
                    match p {
                        Proven::No(e) | Proven::Local(e) | Proven::Panic(e) => e.clone(),
                        _ => String::new(),
                    },
                );
                out.push(ev);
            };
        for guilty in &ids {
            for reporter in &ids {
                if guilty == reporter {
                    continue;
                }
                for (k, (round, name, e)) in self.k.errors(&named).into_iter().enumerate() {
                    let who = self.k.errors(&[]).len();
                    let who = if k < who { 0 } else { k as u32 - who as u32 };
                    match guarded(|| {
                        Ev::<K>::protocol(
                            &self.format(),
                            &randomness(self.c),
                            &run.transcript,
                            e,
                            guilty,
                            reporter,
                            round,
                        )
                    }) {
                        Ok(Some(ev)) => {
                            push(*guilty, *reporter, round, &name, who, &ev.proven(&assoc))
                        }
                        Ok(None) => {}
                        Err(x) => push(*guilty, *reporter, round, &name, who, &Proven::Panic(x)),
                    }
                }
                for r in 0..8 {
                    if let Some(m) = run.transcript.get(&(r, *guilty, *reporter)) {
                        for kind in 0..3 {
                            // a claim about any round, with the part sent in this one
                            for claimed in 0..8u8 {
                                let kind2 = match kind {
                                    0 => EvidenceKind::Echo(m.echo_broadcast.clone()),
                                    1 => EvidenceKind::Normal(m.normal_broadcast.clone()),
                                    _ => EvidenceKind::Direct(m.direct_message.clone()),
                                };
                                let ev = Ev::<K> {
                                    guilty: *guilty,
                                    round: claimed,
                                    format: self.format(),
                                    shared_randomness: randomness(self.c),
                                    description: String::new(),
                                    kind: kind2,
                                };
                                if claimed == r {
                                    push(*guilty, *reporter, r, PARTS[kind], 0, &ev.proven(&assoc));
                                } else if let p @ Proven::Panic(_) = ev.proven(&assoc) {
                                    push(*guilty, *reporter, claimed, PARTS[kind], 0, &p);
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }
    fn job(self) -> Vec<J> {
        let w = self.with_early();
        w.work()
    }
    fn work(&self) -> Vec<J> {
        match self.c.get("op").s() {
            "run" => self.run(),
            "tamper" => self.tamper(),
            "commit" => self.commit(),
            "misread" => self.misread(),
            "probe" => self.probe(),
            "foreign" => self.foreign(),
            "forge" => self.forge(),
            "frame" => self.frame(),
            "traffic" => self.traffic(),
            x => panic!("plan: {x}"),
        }
    }
}

fn started<EP: EntryPoint<u32>>(
    seed: u64,
    ep: impl FnOnce() -> Result<EP, LocalError>,
    id: u32,
) -> J {
    let r = guarded(|| {
        ep().and_then(|e| {
            e.make_round(&mut Rng::new(seed, "start"), &[7; 32], &id)
                .map(|_| ())
        })
    });
    J::from(match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    })
}
/// Starting with inputs that do or do not belong together.
fn starts<P: SchemeParams>(c: &J, seed: u64) -> Vec<J> {
    let ids: BTreeSet<u32> = numbers(c, "ids").into_iter().collect();
    let v: Vec<u32> = ids.iter().copied().collect();
    let (me, you, third, none) = (v[0], v[1], v[2], 777_777);
    let mut rng = Rng::new(
        seed,
        &format!("inputs 0 {} {}", c.get("proto").s(), c.get("ids").render()),
    );
    let mut out = vec![];
    let mut push = |case: &str, res: J| {
        let mut ev = c.clone();
        ev.push("case", case);
        ev.push("res", res);
        out.push(ev);
    };
    let without = |x: u32| {
        ids.iter()
            .copied()
            .filter(|y| *y != x)
            .collect::<BTreeSet<u32>>()
    };
    match c.get("proto").s() {
        "keyinit" => {
            push(
                "ok",
                started(seed, || crate::KeyInit::<P, u32>::new(ids.clone()), me),
            );
            push(
                "absent",
                started(seed, || crate::KeyInit::<P, u32>::new(ids.clone()), none),
            );
        }
        "auxgen" => {
            push(
                "ok",
                started(seed, || crate::AuxGen::<P, u32>::new(ids.clone()), me),
            );
            push(
                "absent",
                started(seed, || crate::AuxGen::<P, u32>::new(ids.clone()), none),
            );
        }
        "refresh" => {
            push(
                "ok",
                started(seed, || crate::KeyRefresh::<P, u32>::new(ids.clone()), me),
            );
            push(
                "absent",
                started(seed, || crate::KeyRefresh::<P, u32>::new(ids.clone()), none),
            );
        }
        "signing" => {
            let m = elliptic_curve::FieldBytes::<P::Curve>::default();
            let shares = KeyShare::<P, u32>::new_centralized(&mut rng, &ids, None);
            let aux = AuxInfo::<P, u32>::new_centralized(&mut rng, &ids);
            let fewer = KeyShare::<P, u32>::new_centralized(&mut rng, &without(third), None);
            let fewer_aux = AuxInfo::<P, u32>::new_centralized(&mut rng, &without(third));
            let other: BTreeSet<u32> = without(third).into_iter().chain([none]).collect();
            let others = KeyShare::<P, u32>::new_centralized(&mut rng, &other, None);
            let new = |s: &KeyShare<P, u32>, a: &AuxInfo<P, u32>| {
                crate::InteractiveSigning::new(m.clone(), s.clone(), a.clone())
            };
            push("ok", started(seed, || new(&shares[&me], &aux[&me]), me));
            push(
                "owners differ",
                started(seed, || new(&shares[&me], &aux[&you]), me),
            );
            // refused already when put together
            push(
                "put together",
                J::from(match guarded(|| new(&shares[&me], &aux[&you]).is_ok()) {
                    Ok(true) => "ok",
                    Ok(false) => "err",
                    Err(_) => "panic",
                }),
            );
            push(
                "of another",
                started(seed, || new(&shares[&me], &aux[&me]), you),
            );
            push(
                "absent",
                started(seed, || new(&shares[&me], &aux[&me]), none),
            );
            push(
                "aux missing",
                started(seed, || new(&shares[&me], &fewer_aux[&me]), me),
            );
            push(
                "shares missing",
                started(seed, || new(&fewer[&me], &aux[&me]), me),
            );
            push(
                "other parties",
                started(seed, || new(&others[&me], &aux[&me]), me),
            );
            let assoc = |s: &KeyShare<P, u32>, a: &AuxInfo<P, u32>| {
                let r = guarded(|| {
                    crate::InteractiveSigningAssociatedData::new(
                        m.clone(),
                        s.public().clone(),
                        a.public().clone(),
                    )
                    .is_ok()
                });
                J::from(match r {
                    Ok(true) => "ok",
                    Ok(false) => "err",
                    Err(_) => "panic",
                })
            };
            push("data ok", assoc(&shares[&me], &aux[&you]));
            push("data aux missing", assoc(&shares[&me], &fewer_aux[&me]));
            push("data shares missing", assoc(&fewer[&me], &aux[&me]));
        }
        "resharing" => {
            let h = ThresholdKeyShare::<P, u32>::new_centralized(&mut rng, &ids, 2, None).unwrap();
            let vk = h[&me].verifying_key().unwrap();
            let old = |x: u32| {
                Some(crate::OldHolder {
                    key_share: h[&x].clone(),
                })
            };
            let new = |olds: BTreeSet<u32>, t: usize| {
                Some(crate::NewHolder {
                    verifying_key: vk.clone(),
                    old_threshold: t,
                    old_holders: olds,
                })
            };
            let go = |o, n, news: BTreeSet<u32>, t: usize, id: u32| {
                started(
                    seed,
                    || Ok(crate::KeyResharing::<P, u32>::new(o, n, news, t)),
                    id,
                )
            };
            push(
                "ok both",
                go(old(me), new(ids.clone(), 2), ids.clone(), 2, me),
            );
            push("ok old", go(old(me), None, without(me), 2, me));
            push("ok new", go(None, new(without(me), 2), ids.clone(), 2, me));
            push("neither", go(None, None, ids.clone(), 2, me));
            push(
                "not new",
                go(old(me), new(ids.clone(), 2), without(me), 2, me),
            );
            push(
                "not old",
                go(old(me), new(without(me), 2), ids.clone(), 2, me),
            );
            push(
                "few old",
                go(None, new([you].into(), 2), ids.clone(), 2, me),
            );
            push(
                "no threshold",
                go(old(me), new(ids.clone(), 2), ids.clone(), 0, me),
            );
            push(
                "high threshold",
                go(old(me), new(ids.clone(), 2), ids.clone(), 4, me),
            );
            push(
                "of another",
                go(old(you), new(ids.clone(), 2), ids.clone(), 2, me),
            );
            push("of another old", go(old(you), None, without(me), 2, me));
        }
        x => panic!("plan: {x}"),
    }
    out
}

/// Additive shares of a key: dealt, or converted from a threshold sharing among more.
fn keys<P: SchemeParams>(
    c: &J,
    rng: &mut Rng,
    ids: &BTreeSet<u32>,
) -> BTreeMap<u32, KeyShare<P, u32>> {
    let t = c.get("t").i() as usize;
    if t == 0 {
        return KeyShare::new_centralized(rng, ids, None);
    }
    let mut all = ids.clone();
    all.extend([900, 901]);
    let h = ThresholdKeyShare::<P, u32>::new_centralized(rng, &all, t, None).unwrap();
    ids.iter()
        .map(|k| (*k, h[k].to_key_share(ids).unwrap()))
        .collect()
}
fn case<P: SchemeParams>(c: &J, seed: u64) -> Vec<J> {
    if c.get("op").s() == "start" {
        return starts::<P>(c, seed);
    }
    let ids: BTreeSet<u32> = numbers(c, "ids").into_iter().collect();
    let rng = |epoch: u32| {
        Rng::new(
            seed,
            &format!(
                "inputs {epoch} {} {}",
                c.get("proto").s(),
                c.get("ids").render()
            ),
        )
    };
    match c.get("proto").s() {
        "keyinit" => {
            let k = KeyInitK::<P> {
                ids,
                p: Default::default(),
            };
            World {
                k: &k,
                other: &k,
                c,
                seed,
                early: None,
            }
            .job()
        }
        "auxgen" => {
            let k = AuxGenK::<P> {
                ids,
                p: Default::default(),
            };
            World {
                k: &k,
                other: &k,
                c,
                seed,
                early: None,
            }
            .job()
        }
        "refresh" => {
            let k = |e| RefreshK {
                shares: keys::<P>(c, &mut rng(e), &ids),
            };
            World {
                k: &k(0),
                other: &k(1),
                c,
                seed,
                early: None,
            }
            .job()
        }
        "signing" => {
            let len = <elliptic_curve::FieldBytes<P::Curve>>::default().len();
            let message = from_limbs(c.get("m"), len).expect("plan: message");
            let k = |e| {
                let mut rng = rng(e);
                let shares = keys::<P>(c, &mut rng, &ids);
                SignK {
                    shares,
                    aux: AuxInfo::<P, u32>::new_centralized(&mut rng, &ids),
                    message: message.clone(),
                }
            };
            World {
                k: &k(0),
                other: &k(1),
                c,
                seed,
                early: None,
            }
            .job()
        }
        "resharing" => {
            let quorum: BTreeSet<u32> = numbers(c, "quorum").into_iter().collect();
            let new: BTreeSet<u32> = numbers(c, "new").into_iter().collect();
            let k = |e| ReshareK {
                old: ThresholdKeyShare::<P, u32>::new_centralized(
                    &mut rng(e),
                    &ids,
                    c.get("t").i() as usize,
                    None,
                )
                .unwrap(),
                quorum: quorum.clone(),
                new: new.clone(),
                threshold: c.get("nt").i() as usize,
            };
            World {
                k: &k(0),
                other: &k(1),
                c,
                seed,
                early: None,
            }
            .job()
        }
        x => panic!("plan: {x}"),
    }
}

pub fn run(ctx: &Ctx) {
    let plan = ctx.plan();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(c) = plan.get(k) else { break };
                let t = std::time::Instant::now();
                let r = match c.get("params").s() {
                    "p112" => case::<crate::k256::ProductionParams112>(c, ctx.seed),
                    _ => case::<crate::dev::TestParams>(c, ctx.seed),
                };
                std::eprintln!("{:?} {} {}", t.elapsed(), r.len(), c.render());
                done.lock().unwrap().insert(k, r);
            });
        }
    });
    let mut out = Out::default();
    for (_, r) in done.into_inner().unwrap() {
        for e in r {
            out.ev(e);
        }
    }
    ctx.save(&out);
}
