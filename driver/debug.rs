// Debug texts of pairs of objects that differ in their secrets only.
use super::curve::{scalar, scj};
use super::paillier::*;
use super::util::*;
use super::zk::{small, Fix};
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::entities::*; // full
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::protocols::{InteractiveSigning, KeyResharing, OldHolder, PrehashedMessage}; // full
use crate::tools::sss::Polynomial;
use crate::zk::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::prelude::v1::*;
use std::{format, vec};

/// Pieces of a big-endian number as they could occur in a text: windows of hexadecimal digits,
/// words in decimal, bytes in decimal.
fn pieces(be: &[u8]) -> Vec<String> {
    let be: Vec<u8> = be.iter().copied().skip_while(|b| *b == 0).collect();
    let mut out = vec![];
    let w = be.len().min(8);
    if w < 4 {
        return out;
    }
    for c in be.windows(w) {
        out.push(hex(c));
        let mut r = c.to_vec();
        r.reverse();
        out.push(hex(&r));
    }
    let mut le = be.clone();
    le.reverse();
    for k in [4, 8, 16] {
        for c in le.chunks(k).filter(|c| c.len() >= 4) {
            out.push(format!(
                "{}",
                c.iter().rev().fold(0u128, |n, b| n << 8 | *b as u128)
            ));
        }
    }
    for s in [&be, &le] {
        for c in s.windows(w) {
            out.push(
                c.iter()
                    .map(|b| format!("{b}"))
                    .collect::<Vec<_>>()
                    .join(","),
            );
            out.push(
                c.iter()
                    .map(|b| format!("{b:x}"))
                    .collect::<Vec<_>>()
                    .join(","),
            );
        }
    }
    out
}
fn normal(s: &str) -> String {
    let s: String = s
        .chars()
        .filter(|c| !c.is_whitespace() && *c != '_')
        .flat_map(|c| c.to_lowercase())
        .collect();
    s.replace("0x", "")
}
fn leaks(text: &str, secrets: &[Vec<u8>]) -> usize {
    let t = normal(text);
    secrets
        .iter()
        .flat_map(|s| pieces(s))
        .filter(|p| t.contains(p.as_str()))
        .count()
}
struct Show<'a> {
    out: &'a mut Out,
    params: &'static str,
}
impl Show<'_> {
    fn both<T: Debug>(
        &mut self,
        op: &str,
        kind: &str,
        a: &T,
        b: &T,
        secrets: &[Vec<u8>],
        differ: bool,
    ) {
        for (form, ta, tb) in [
            ("plain", format!("{a:?}"), format!("{b:?}")),
            ("pretty", format!("{a:#?}"), format!("{b:#?}")),
            ("hex", format!("{a:x?}"), format!("{b:x?}")),
            (
                "wrapped",
                format!("{:?}", Some((1u8, a))),
                format!("{:?}", Some((1u8, b))),
            ),
        ] {
            let n = leaks(&ta, secrets);
            self.out.ev(obj! {
                "op" => op, "kind" => kind, "params" => self.params, "form" => form, "secrets" => secrets.len(), "leaks" => n, "differ" => differ,
                "a" => ta, "b" => tb
            });
        }
    }
    fn pair<T: Debug>(&mut self, kind: &str, a: &T, b: &T, secrets: &[Vec<u8>]) {
        self.both("pair", kind, a, b, secrets, true)
    }
    /// Objects whose secrets differ in every respect: length, sign, parity, number of ones.
    fn family<T: Debug>(&mut self, kind: &str, all: &[T], secrets: &[Vec<u8>]) {
        for b in &all[1..] {
            self.pair(kind, &all[0], b, secrets);
        }
    }
}
fn be<T: BoxedEncoding>(x: &T) -> Vec<u8> {
    x.to_be_bytes().to_vec()
}
fn sbe<P: SchemeParams>(x: &Scalar<P>) -> Vec<u8> {
    x.to_be_bytes().to_vec()
}
/// The value with its part `name` taken from another one.
fn graft<T: serde::Serialize + for<'de> serde::Deserialize<'de>>(x: &T, name: &str, from: &T) -> T {
    let (mut v, w) = (val(x), val(from));
    let part = w.get(name).expect("no such part").clone();
    *v.get_mut(name).expect("no such part") = part;
    from_value(&v, false).expect("grafted value refused")
}

/// The value with its part `name` replaced.
fn put<T: serde::Serialize + for<'de> serde::Deserialize<'de>, U: serde::Serialize>(
    x: &T,
    name: &str,
    part: &U,
) -> T {
    let mut v = val(x);
    *v.get_mut(name).expect("no such part") = val(part);
    from_value(&v, false).expect("changed value refused")
}

fn all<P: SchemeParams>(out: &mut Out, params: &'static str) {
    let mut s = Show { out, params };
    let mut rng = Rng::new(11, params);
    let rng = &mut rng;
    let f = Fix::<P>::get();
    let pk = f.sk0.public_key();
    let primes = |sk: &SecretKeyPaillier<Pl<P>>| {
        let (p, q) = (sk.p_signed().abs_value(), sk.q_signed().abs_value());
        let half = be(p.expose_secret())
            .iter()
            .skip_while(|b| **b == 0)
            .count();
        vec![
            be(p.expose_secret()),
            be(q.expose_secret()),
            // the high half of the totient is that of the modulus
            be(sk.totient_wide_unsigned().expose_secret())
                .into_iter()
                .rev()
                .take(half)
                .rev()
                .collect(),
            be(sk.inv_modulus().expose_secret()),
        ]
    };
    let (x, y) = (Scalar::<P>::random(rng), Scalar::<P>::random(rng));
    let (u, v) = (f.sk0.p_signed().abs_value(), f.sk0.q_signed().abs_value());
    let (u, v): (Int<P>, Int<P>) = (*u.expose_secret(), *v.expose_secret());
    let _ = scj(&x);

    // the search finds what is shown
    s.both("control", "control:scalar", &x, &y, &[sbe(&x)], true);
    s.both("control", "control:uint", &u, &v, &[be(&u)], true);
    s.both(
        "control",
        "control:bytes",
        &be(&u),
        &be(&v),
        &[be(&u)],
        true,
    );
    s.both(
        "control",
        "control:monty",
        pk.monty_params_mod_n(),
        f.sk1.public_key().monty_params_mod_n(),
        &[be(pk.modulus())],
        true,
    );

    let two = Scalar::<P>::ONE + Scalar::ONE;
    let scalars = [
        x,
        y,
        Scalar::ZERO,
        Scalar::ONE,
        -Scalar::<P>::ONE,
        two,
        two.invert().unwrap(),
    ];
    let words: Vec<Int<P>> = vec![
        u,
        v,
        Int::<P>::from(0u32),
        Int::<P>::from(1u32),
        Int::<P>::from(2u32),
        u >> 17u32,
        crypto_bigint::WrappingNeg::wrapping_neg(&u),
        crypto_bigint::WrappingNeg::wrapping_neg(&Int::<P>::from(1u32)),
        Int::<P>::from(1u32) << 65u32,
    ];
    let bits = <Int<P> as crypto_bigint::Bounded>::BITS;
    s.family("secret-scalar", &scalars.map(secret), &[sbe(&x)]);
    s.family(
        "secret-uint",
        &words.iter().map(|w| secret(*w)).collect::<Vec<_>>(),
        &[be(&u)],
    );
    let signed = |w: &Int<P>| SecretSigned::new_from_unsigned(secret(*w), bits - 1).unwrap();
    s.family(
        "signed",
        &words.iter().map(signed).collect::<Vec<_>>(),
        &[be(&u)],
    );
    s.family(
        "signed-small",
        &[5, -7, 0, 1, 127, -127, 64].map(|n| small::<Int<P>>(n, 8)),
        &[be(&u)],
    );
    let unsigned = |w: &Int<P>| SecretUnsigned::new(secret(*w), bits).unwrap();
    s.family(
        "unsigned",
        &words.iter().map(unsigned).collect::<Vec<_>>(),
        &[be(&u)],
    );
    let rs: Vec<_> = (0..6)
        .map(|_| Randomizer::<Pl<P>>::random(rng, pk))
        .collect();
    let r1 = rs[0].clone();
    let r1be = from_limbs(&rho::<P>(&r1), <Int<P> as crypto_bigint::Bounded>::BYTES).unwrap();
    s.family("randomizer", &rs, &[r1be]);
    let (sw0, sw1) = (f.sk0.clone().into_wire(), f.sk1.clone().into_wire());
    let little =
        |p: u32, q: u32| key::<P>(&nj(&Int::<P>::from(p)), &nj(&Int::<P>::from(q))).into_wire();
    s.family(
        "sk-wire",
        &[sw0, sw1, little(7, 11), little(0xffffff43, 0x10007)],
        &primes(&f.sk0),
    );
    // the same key with its primes exchanged has the same public part
    let (p, q) = (nj(&u), nj(&v));
    let sk = key::<P>(&q, &p);
    assert!(
        sk.public_key().modulus() == pk.modulus(),
        "driver: exchanged primes"
    );
    s.pair("sk", &f.sk0, &sk, &primes(&f.sk0));
    let mut rp = vec![];
    if params == "test" {
        for _ in 0..6 {
            rp.push(RPSecret::<Pl<P>>::random(rng));
        }
        s.family(
            "rp-secret",
            &rp,
            &[
                be(rp[0].lambda().expose_secret()),
                be(rp[0].totient_nonzero().expose_secret().as_ref()),
            ],
        );
    }
    s.family(
        "sch-secret",
        &[1, 2, 3, 4, 5, 6].map(|k| SchSecret::<P>::random(&mut Rng::new(k, "sch"))),
        &[sbe(&Scalar::<P>::random(&mut Rng::new(1, "sch")))],
    );
    let mut no = 0;
    let mut polynomial = |z| {
        no += 1;
        Polynomial::<P>::random(&mut Rng::new(no, "poly"), secret(z), 3)
    };
    s.family("polynomial", &scalars.map(&mut polynomial), &[sbe(&x)]);

    // full{
    let ids: BTreeSet<u32> = [1, 2, 3].into();
    let ks = KeyShare::<P, u32>::new_centralized(rng, &ids, None);
    let (k1, k2) = (
        graft(&ks[&1], "secret", &ks[&1]),
        graft(&ks[&1], "secret", &ks[&2]),
    );
    let mut keyshares = vec![k1.clone(), k2.clone()];
    keyshares.extend(
        scalars
            .iter()
            .skip(2)
            .map(|z| put(&ks[&1], "secret", &secret(*z))),
    );
    s.family(
        "keyshare",
        &keyshares,
        &[sbe(ks[&1].secret_share().expose_secret())],
    );
    let ts = ThresholdKeyShare::<P, u32>::new_centralized(rng, &ids, 2, None).unwrap();
    let (t1, t2) = (
        graft(&ts[&1], "secret_share", &ts[&1]),
        graft(&ts[&1], "secret_share", &ts[&2]),
    );
    let mut tshares = vec![t1.clone(), t2.clone()];
    tshares.extend(
        scalars
            .iter()
            .skip(2)
            .map(|z| put(&ts[&1], "secret_share", &secret(*z))),
    );
    s.family(
        "tshare",
        &tshares,
        &[sbe(ts[&1].secret_share.expose_secret())],
    );
    let points: BTreeMap<u32, Point<P>> = ids
        .iter()
        .map(|k| (*k, Scalar::random(rng).mul_by_generator()))
        .collect();
    let change = |z: Scalar<P>| KeyShareChange::<P, u32> {
        owner: 1,
        secret_share_change: secret(z),
        public_share_changes: points.clone().into(),
    };
    s.family("change", &scalars.map(change), &[sbe(&x)]);

    let public = || PublicAuxInfo::<P> {
        paillier_pk: pk.clone().into_wire(),
        rp_params: f.setup.to_wire(),
    };
    let aux = |sk: &SecretKeyPaillier<Pl<P>>| AuxInfo::<P, u32> {
        owner: 1,
        secret: SecretAuxInfo {
            paillier_sk: sk.clone().into_wire(),
        },
        public: PublicAuxInfos(
            ids.iter()
                .map(|k| (*k, public()))
                .collect::<BTreeMap<_, _>>()
                .into(),
        ),
    };
    s.pair("aux", &aux(&f.sk0), &aux(&sk), &primes(&f.sk0));
    s.pair(
        "aux-precomputed",
        &aux(&f.sk0).into_precomputed(),
        &aux(&sk).into_precomputed(),
        &primes(&f.sk0),
    );
    let msg =
        || PrehashedMessage::<P::Curve>::from(elliptic_curve::FieldBytes::<P::Curve>::default());
    let sign = |k: &KeyShare<P, u32>, sk| {
        InteractiveSigning::<P, u32>::new(msg(), k.clone(), aux(sk)).unwrap()
    };
    let mut all = primes(&f.sk0);
    all.push(sbe(ks[&1].secret_share().expose_secret()));
    s.pair("signing", &sign(&k1, &f.sk0), &sign(&k2, &sk), &all);
    let reshare = |t: &ThresholdKeyShare<P, u32>| {
        KeyResharing::<P, u32>::new(
            Some(OldHolder {
                key_share: t.clone(),
            }),
            None,
            ids.clone(),
            2,
        )
    };
    s.pair(
        "resharing",
        &reshare(&t1),
        &reshare(&t2),
        &[sbe(ts[&1].secret_share.expose_secret())],
    );
    // full}
    let _ = scalar::<P>(&scj(&x));
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    all::<TestParams>(&mut out, "test");
    all::<ProductionParams112>(&mut out, "p112");
    ctx.save(&out);
}
