// A deviator that makes up messages of its own which fit together: only what they are about is wrong.
use super::paillier::*;
use super::protocols::*;
use super::session::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::entities::Sid;
use crate::paillier::{
    PublicKeyPaillierWire, RPParams, RPParamsWire, RPSecret, SecretKeyPaillier,
    SecretKeyPaillierWire,
};
use crate::params::SchemeParams;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, Hasher};
use crate::tools::sss::ShareId;
use crate::zk::{FacProof, ModProof, PrmProof, SchCommitment, SchProof, SchSecret};
use manul::protocol::*;
use manul::sim::Transcript;
use std::collections::{BTreeMap, BTreeSet};
use std::prelude::v1::*;
use std::{format, vec};

/// What the messages of the session would have been, and whose are to be made up.
pub struct Scene<'a> {
    pub c: &'a J,
    pub seed: u64,
    pub sr: &'a [u8],
    pub dev: u32,
    pub hr: bool,
    pub honest: &'a Transcript<u32>,
}
/// Messages by round and recipient
pub type Forged = BTreeMap<(u8, u32), ProtocolMessage>;

fn field<T: serde::Serialize>(m: &mut ProtocolMessage, p: usize, name: &str, x: &T, hr: bool) {
    let mut v = part(m, p)
        .and_then(|b| Value::from_bytes(&b).ok())
        .expect("driver: no such part");
    *v.get_mut(name).expect("driver: no such field") =
        to_value(x, hr).expect("driver: not serializable");
    set_part(m, p, Some(v.to_bytes()));
}
fn got<T: for<'a> serde::Deserialize<'a>>(
    m: &ProtocolMessage,
    p: usize,
    name: &str,
    hr: bool,
) -> T {
    take(&value(m, p).expect("driver: no such part"), name, hr)
        .unwrap_or_else(|| panic!("driver: no {name}"))
}
impl Scene<'_> {
    fn what(&self) -> &str {
        self.c.get("what").s()
    }
    fn to(&self, round: u8) -> Vec<u32> {
        let all = self.honest.keys();
        all.filter(|k| (k.0, k.1) == (round, self.dev))
            .map(|k| k.2)
            .collect()
    }
    fn rng(&self) -> Rng {
        Rng::new(self.seed, &format!("forge {}", self.what()))
    }
}

/// Parameters and a proof for them.
fn rp_of<P: SchemeParams>(
    s: &Scene<'_>,
    rng: &mut Rng,
    sid: &Sid,
) -> (RPParamsWire<Pl<P>>, PrmProof<P>) {
    let aux = (sid, &s.dev);
    let secret = RPSecret::<Pl<P>>::random(rng);
    let setup = RPParams::random_with_secret(rng, &secret);
    let psi = PrmProof::<P>::new(rng, &secret, &setup, &aux);
    if s.what() != "rp" {
        return (setup.to_wire(), psi);
    }
    // a smaller modulus, with both bases 1: any power fits
    let (p, q) = (s.c.get("p"), s.c.get("q"));
    let n = nj(key::<P>(p, q).public_key().modulus());
    let one = limbs(&[1]);
    let weak = rp::<P>(&n, &one, &one);
    let mut v = val(&psi);
    let mut b = vec![];
    all_bytes_mut(v.get_mut("commitment").expect("field"), &mut b);
    for x in b {
        set_num(x, &one, true);
    }
    let commitment: Vec<crate::uint::PublicUint<Int<P>>> =
        from_value(v.get_mut("commitment").expect("field"), false).expect("driver: commitment");
    let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_prm")
        .chain(&commitment)
        .chain(&weak.to_wire())
        .chain(&aux)
        .finalize_to_reader();
    let e = BitVec::from_xof_reader(&mut reader, P::SECURITY_BITS);
    *v.get_mut("challenge").expect("field") = val(&e);
    (
        weak.to_wire(),
        from_value(&v, false).expect("driver: proof"),
    )
}
fn key_of<P: SchemeParams>(s: &Scene<'_>, rng: &mut Rng) -> SecretKeyPaillier<Pl<P>> {
    if s.what() == "paillier" {
        key::<P>(s.c.get("p"), s.c.get("q"))
    } else {
        SecretKeyPaillierWire::<Pl<P>>::random(rng).into_precomputed()
    }
}
fn rid(s: &Scene<'_>, ids: &BTreeSet<u32>) -> BitVec {
    let of = |k: u32| {
        let m = s
            .honest
            .iter()
            .find(|(x, _)| (x.0, x.1) == (2, k))
            .expect("driver: round 2")
            .1;
        got::<BitVec>(m, 0, "rid", s.hr)
    };
    let mut it = ids.iter().map(|k| of(*k));
    let mut out = it.next().expect("driver: nobody");
    for x in it {
        out ^= &x;
    }
    out
}

/// Keys and parameters of its own (and shares to refresh with, when `shares` says so).
pub(super) fn aux_messages<P: SchemeParams>(
    s: &Scene<'_>,
    ids: &BTreeSet<u32>,
    shares: bool,
    recommit: &dyn Fn(&ProtocolMessage) -> Option<Vec<u8>>,
) -> Forged {
    let mut rng = s.rng();
    let rng = &mut rng;
    let sid = Sid::new::<P, u32>(s.sr, ids);
    let (rp_wire, psi) = rp_of::<P>(s, rng, &sid);
    let sk = key_of::<P>(s, rng);
    let rid = rid(s, ids);
    let aux = (&sid, &s.dev, &rid);
    // changes of the shares; those of real parties add up to zero, or do not
    let mut xs: BTreeMap<u32, Scalar<P>> = ids.iter().map(|k| (*k, Scalar::random(rng))).collect();
    let mut named = ids.clone();
    if s.what() == "extra" {
        named.insert(4_000_000_000);
        xs.insert(4_000_000_000, Scalar::random(rng));
    }
    let sum: Scalar<P> = xs.values().copied().sum();
    let me = xs[&s.dev] - sum;
    xs.insert(
        s.dev,
        if s.what() == "sum" {
            me + Scalar::ONE
        } else {
            me
        },
    );
    let mk = |x: &Scalar<P>| Secret::init_with(|| *x);
    let taus: BTreeMap<u32, SchSecret<P>> =
        named.iter().map(|k| (*k, SchSecret::random(rng))).collect();
    let ys: BTreeMap<u32, Scalar<P>> = ids.iter().map(|k| (*k, Scalar::random(rng))).collect();
    let cap_xs: BTreeMap<u32, Point<P>> =
        xs.iter().map(|(k, x)| (*k, x.mul_by_generator())).collect();
    let cap_ys: BTreeMap<u32, Point<P>> =
        ys.iter().map(|(k, x)| (*k, x.mul_by_generator())).collect();
    let cap_as: BTreeMap<u32, SchCommitment<P>> = taus
        .iter()
        .filter(|(k, _)| ids.contains(k))
        .map(|(k, x)| (*k, SchCommitment::new(x)))
        .collect();
    let hat_psis: BTreeMap<u32, SchProof<P>> = cap_as
        .iter()
        .map(|(k, a)| {
            (
                *k,
                SchProof::new(&taus[k], &mk(&xs[k]), a, &cap_xs[k], &aux),
            )
        })
        .collect();
    let mut out = Forged::new();
    for to in s.to(2) {
        let mut m = s.honest[&(2, s.dev, to)].clone();
        field(&mut m, 0, "rp_params", &rp_wire, s.hr);
        field(&mut m, 1, "psi", &psi, s.hr);
        let pk: PublicKeyPaillierWire<Pl<P>> = sk.public_key().clone().into_wire();
        field(&mut m, 1, "paillier_pk", &pk, s.hr);
        if shares {
            field(
                &mut m,
                0,
                "cap_ys",
                &cap_ys.iter().collect::<Vec<_>>(),
                s.hr,
            );
            field(
                &mut m,
                1,
                "cap_xs",
                &cap_xs.iter().collect::<Vec<_>>(),
                s.hr,
            );
            field(
                &mut m,
                1,
                "cap_as",
                &cap_as.iter().collect::<Vec<_>>(),
                s.hr,
            );
        }
        let mut first = s.honest[&(1, s.dev, to)].clone();
        set_part(&mut first, 0, recommit(&m));
        out.insert((1, to), first);
        out.insert((2, to), m);
    }
    let mod_proof = ModProof::<P>::new(rng, &sk, &aux);
    for to in s.to(3) {
        let mut m = s.honest[&(3, s.dev, to)].clone();
        let theirs = &s.honest[&(2, to, s.dev)];
        let setup = got::<RPParamsWire<Pl<P>>>(theirs, 0, "rp_params", s.hr).to_precomputed();
        field(&mut m, 1, "psi_prime", &mod_proof, s.hr);
        field(
            &mut m,
            2,
            "psi",
            &FacProof::<P>::new(rng, &sk, &setup, &aux),
            s.hr,
        );
        if shares {
            let cap_y = take_map::<Point<P>>(&value(theirs, 0).expect("driver"), "cap_ys", s.hr)
                .expect("driver: no cap_ys")[&s.dev];
            let mut reader = Hasher::<P::Digest>::new_with_dst(b"KeyRefresh Round3")
                .chain(&sid)
                .chain(&rid)
                .chain(&s.dev)
                .chain(&(cap_y * ys[&to]))
                .finalize_to_reader();
            let rho = Scalar::<P>::from_xof_reader(&mut reader);
            field(&mut m, 2, "cap_c", &(xs[&to] + rho), s.hr);
            field(
                &mut m,
                0,
                "hat_psis",
                &hat_psis.iter().collect::<Vec<_>>(),
                s.hr,
            );
        }
        out.insert((3, to), m);
    }
    out
}

/// A polynomial with something added to one of its coefficients, and shares of it.
pub(super) fn polynomials<P: SchemeParams>(
    s: &Scene<'_>,
    new: &BTreeMap<u32, ShareId<P>>,
) -> Forged {
    let delta = Scalar::<P>::random(&mut s.rng());
    let mut out = Forged::new();
    for to in s.to(1) {
        let mut m = s.honest[&(1, s.dev, to)].clone();
        let mut coeffs: Vec<Point<P>> = got(&m, 0, "public_polynomial", s.hr);
        let subshare: Scalar<P> = got(&m, 2, "subshare", s.hr);
        let x: Scalar<P> = from_value(&to_value(&new[&to], false).unwrap(), false).unwrap();
        let k = match s.what() {
            "constant" => 0,
            "valid" => coeffs.len() - 1,
            "degree" => {
                coeffs.push(Point::identity());
                coeffs.len() - 1
            }
            x => panic!("plan: {x}"),
        };
        coeffs[k] = coeffs[k] + delta.mul_by_generator();
        let mut d = delta;
        for _ in 0..k {
            d = d * x;
        }
        field(&mut m, 0, "public_polynomial", &coeffs, s.hr);
        field(&mut m, 2, "subshare", &(subshare + d), s.hr);
        out.insert((1, to), m);
    }
    out
}
