// Threshold and additive key shares: polynomials, sharings, conversions, updates; derivation of child keys.
use super::curve::{ptj, scalar, scj};
use super::paillier::*;
use super::util::*;
use super::wire::{poly_points, share_scalar};
use crate::curve::{DeriveChildKey, Point, PublicTweakable, Scalar, SecretTweakable};
use crate::dev::TestParams;
use crate::entities::*;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use crate::tools::sss::*;
use ecdsa::{SigningKey, VerifyingKey};
use std::collections::{BTreeMap, BTreeSet};
use std::prelude::v1::*;
use std::{format, vec};

fn e() -> J {
    J::A(vec![])
}
pub(super) fn inf() -> J {
    obj! {"inf" => true, "x" => e(), "y" => e()}
}
fn share_id<P: SchemeParams>(s: &Scalar<P>) -> ShareId<P> {
    from_value(&val(s), false).expect("a scalar is not a share id")
}
pub(super) fn pairs<K: Copy + Into<J>, V>(m: impl IntoIterator<Item = (K, V)>, f: impl Fn(&V) -> J) -> J {
    J::A(m.into_iter().map(|(k, v)| J::A(vec![k.into(), f(&v)])).collect())
}
pub(super) fn vkj<P: SchemeParams>(k: &VerifyingKey<P::Curve>) -> J {
    ptj(&Point::<P>::from_verifying_key(k))
}
/// The shares of a threshold share, as far as the specification speaks about them.
pub(super) fn thr<P: SchemeParams>(h: &ThresholdKeyShare<P, u32>) -> J {
    obj! {
        "owner" => h.owner, "threshold" => h.threshold(), "secret" => scj(h.secret_share.expose_secret()),
        "own_id" => h.share_id().map(|s| scj(&share_scalar(s))).unwrap_or_else(|_| e()),
        "share_ids" => pairs(h.share_ids.iter().map(|(k, s)| (*k, *s)), |s| scj(&share_scalar(s))),
        "public" => pairs(h.public_shares.iter().map(|(k, s)| (*k, *s)), ptj),
        "vk" => h.verifying_key().map(|k| vkj::<P>(&k)).unwrap_or_else(|_| inf())
    }
}
pub(super) fn add<P: SchemeParams>(k: &KeyShare<P, u32>) -> J {
    obj! {
        "owner" => *k.owner(), "secret" => scj(k.secret_share().expose_secret()),
        "public" => pairs(k.public_shares().iter().map(|(k, s)| (*k, *s)), ptj), "vk" => vkj::<P>(&k.verifying_key())
    }
}
pub(super) fn numbers(c: &J, k: &str) -> Vec<u32> {
    c.get(k).a().iter().map(|x| x.i() as u32).collect()
}
pub(super) fn subsets<T: Copy>(s: &[T]) -> Vec<Vec<T>> {
    (0..1usize << s.len()).map(|m| s.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, x)| *x).collect()).collect()
}
fn conv<P: SchemeParams>(h: &ThresholdKeyShare<P, u32>, ids: &[u32]) -> J {
    let set: BTreeSet<u32> = ids.iter().copied().collect();
    let (res, k) = match guarded(|| h.to_key_share(&set)) {
        Err(_) => ("panic", None),
        Ok(Err(_)) => ("err", None),
        Ok(Ok(k)) => ("ok", Some(add(&k))),
    };
    let part = |n: &str, d: J| k.as_ref().map(|k| k.get(n).clone()).unwrap_or(d);
    obj! {
        "owner" => h.owner, "ids" => J::A(set.iter().map(|x| J::from(*x)).collect()), "res" => res, "of" => part("owner", 0.into()),
        "secret" => part("secret", e()), "public" => part("public", e()), "vk" => part("vk", inf())
    }
}
fn signing_key<P: SchemeParams>(c: &J) -> Option<SigningKey<P::Curve>> {
    match c.get("key").s() {
        "given" => Some(secret(scalar::<P>(c.get("secret"))).to_signing_key().expect("a nonzero scalar is not a key")),
        _ => None,
    }
}

fn case<P: SchemeParams>(c: &J, seed: u64) -> J {
    let n = c.get("n").i() as usize;
    let t = c.get("t").i() as usize;
    let ids = numbers(c, "ids");
    let set: BTreeSet<u32> = ids.iter().copied().collect();
    let mut rng = Rng::new(seed, &c.render());
    let mut ev = c.clone();
    match c.get("op").s() {
        "pub_eval" => {
            let points: Vec<Point<P>> = c.get("coeffs").a().iter().map(|a| scalar::<P>(a).mul_by_generator()).collect();
            let x = share_id::<P>(&scalar(c.get("x")));
            ev.push(
                "res",
                outcome(
                    || {
                        let p: PublicPolynomial<P> = from_value(&val(&points), false).expect("a list of points is not a public polynomial");
                        Some(p.evaluate(&x))
                    },
                    |p| ptj(&p),
                    inf(),
                ),
            );
        }
        "coeff" => {
            let places: Vec<ShareId<P>> = c.get("places").a().iter().map(|x| share_id(&scalar(x))).collect();
            let x = share_id::<P>(&scalar(c.get("x")));
            ev.push("res", outcome(|| Some(interpolation_coeff(places.iter(), &x)), |s| scj(&s), e()));
        }
        "split" => {
            let places = shamir_evaluation_points::<P>(n);
            let shares = shamir_split(&mut rng, secret(scalar::<P>(c.get("secret"))), t, &places);
            ev.push("shares", J::A(shares.iter().map(|(k, v)| J::A(vec![scj(&share_scalar(k)), scj(v.expose_secret())])).collect()));
            let mut joins = vec![];
            for s in subsets(&places).into_iter().filter(|s| !s.is_empty()) {
                let some: BTreeMap<_, _> = s.iter().map(|k| (*k, shares[k].clone())).collect();
                let points: BTreeMap<_, _> = s.iter().map(|k| (*k, shares[k].mul_by_generator())).collect();
                joins.push(obj! {
                    "ids" => J::A(some.keys().map(|k| scj(&share_scalar(k))).collect()),
                    "scalar" => scj(shamir_join_scalars(some).expose_secret()), "point" => ptj(&shamir_join_points(&points))
                });
            }
            ev.push("joins", J::A(joins));
        }
        "poly" => {
            let p = Polynomial::<P>::random(&mut rng, secret(scalar(c.get("secret"))), t);
            let public = p.public();
            ev.push("public", J::A(poly_points::<P>(&public).iter().map(ptj).collect()));
            ev.push("coeff0", public.coeff0().map(ptj).unwrap_or_else(|_| inf()));
            let shares = [1u64, 2, 3, 7, 100].iter().map(|k| {
                let x = ShareId::<P>::new(*k);
                let point = match guarded(|| public.evaluate(&x)) {
                    Ok(p) => ptj(&p),
                    Err(_) => inf(),
                };
                J::A(vec![scj(&share_scalar(&x)), scj(p.evaluate(&x).expose_secret()), point])
            });
            ev.push("shares", J::A(shares.collect()));
        }
        "central" => {
            let sk = signing_key::<P>(c);
            let r = guarded(|| ThresholdKeyShare::<P, u32>::new_centralized(&mut rng, &set, t, sk.as_ref()));
            ev.push("res", match &r {
                Err(_) => "panic",
                Ok(Err(_)) => "err",
                Ok(Ok(_)) => "ok",
            });
            let hs = match r {
                Ok(Ok(hs)) => hs,
                _ => BTreeMap::new(),
            };
            ev.push("holders", J::A(hs.values().map(thr).collect()));
            let mut convs = vec![];
            for h in hs.values() {
                for s in subsets(&ids) {
                    convs.push(conv(h, &s));
                }
                // with somebody unknown, in place of somebody and in addition
                for s in subsets(&ids).into_iter().filter(|s| s.len() + 1 == t || s.len() == t) {
                    convs.push(conv(h, &[&s[..], &[5000]].concat()));
                }
            }
            ev.push("convs", J::A(convs));
            // another sharing of the same key has other shares
            let fresh = hs.is_empty() || t < 2 || {
                let other = ThresholdKeyShare::<P, u32>::new_centralized(&mut rng, &set, t, sk.as_ref()).unwrap();
                hs.iter().all(|(k, h)| h.secret_share.expose_secret() != other[k].secret_share.expose_secret())
            };
            ev.push("fresh", fresh);
        }
        "from" => {
            let ks = KeyShare::<P, u32>::new_centralized(&mut rng, &set, signing_key::<P>(c).as_ref());
            let hs: Vec<_> = ks.values().map(ThresholdKeyShare::from_key_share).collect();
            ev.push("additive", J::A(ks.values().map(add).collect()));
            ev.push("holders", J::A(hs.iter().map(thr).collect()));
            ev.push("back", J::A(hs.iter().map(|h| h.to_key_share(&set).map(|k| add(&k)).unwrap_or_else(|_| obj! {"owner" => h.owner})).collect()));
        }
        "subset" => {
            let aux = AuxInfo::<P, u32>::new_centralized(&mut rng, &set);
            let mut subs = vec![];
            for (owner, a) in &aux {
                for mut s in subsets(&[&ids[..], &[5000]].concat()) {
                    s.sort();
                    let sub: BTreeSet<u32> = s.iter().copied().collect();
                    let p = a.public.clone().subset(&sub).ok();
                    let x = a.clone().subset(&sub).ok();
                    let of = |p: &PublicAuxInfos<P, u32>| J::A(p.as_map().keys().map(|k| J::from(*k)).collect());
                    let same = |p: &PublicAuxInfos<P, u32>| p.as_map().iter().all(|(k, v)| val(v) == val(&a.public.as_map()[k]));
                    subs.push(obj! {
                        "owner" => *owner, "ids" => J::A(s.iter().map(|x| J::from(*x)).collect()),
                        "pub" => if p.is_some() { "ok" } else { "err" }, "aux" => if x.is_some() { "ok" } else { "err" },
                        "pub_ids" => p.as_ref().map(of).unwrap_or_else(e), "aux_ids" => x.as_ref().map(|x| of(&x.public)).unwrap_or_else(e),
                        "pub_same" => p.as_ref().map(same).unwrap_or(false),
                        "aux_same" => x.as_ref().map(|x| same(&x.public) && x.owner == *owner && val(&x.secret.paillier_sk) == val(&a.secret.paillier_sk)).unwrap_or(false)
                    });
                }
            }
            ev.push("subs", J::A(subs));
        }
        "update" => {
            let owner = ids[t - 1];
            let ks = KeyShare::<P, u32>::new_centralized(&mut rng, &set, None);
            let olds: BTreeMap<u32, Scalar<P>> = ks.iter().map(|(k, s)| (*k, *s.secret_share().expose_secret())).collect();
            let mut changes: BTreeMap<u32, Scalar<P>> = ids.iter().map(|k| (*k, Scalar::random(&mut rng))).collect();
            if c.get("key").s() == "zero" {
                let rest: Scalar<P> = changes.iter().filter(|(k, _)| **k != owner).map(|(_, s)| *s).sum();
                changes.insert(owner, -(olds.values().sum::<Scalar<P>>() + rest));
            }
            let mut public: BTreeMap<u32, Point<P>> = changes.iter().map(|(k, s)| (*k, s.mul_by_generator())).collect();
            let extra = Scalar::<P>::random(&mut rng).mul_by_generator();
            let mut of = owner;
            match c.get("key").s() {
                "owner" => of = if n > 1 { ids[t % n] } else { 4000 },
                "missing" => drop(public.remove(&ids[n - 1])),
                "extra" => drop(public.insert(5000, extra)),
                "renamed" => {
                    public.remove(&ids[n - 1]);
                    public.insert(5000, extra);
                }
                _ => {}
            }
            let change = KeyShareChange::<P, u32> { owner: of, secret_share_change: secret(changes[&owner]), public_share_changes: public.into() };
            let r = guarded(|| ks[&owner].clone().update(change));
            ev.push("res", match &r {
                Err(_) => "panic",
                Ok(Err(_)) => "err",
                Ok(Ok(_)) => "ok",
            });
            ev.push("old", pairs(olds, scj));
            ev.push("change", pairs(changes, scj));
            ev.push("new", match r {
                Ok(Ok(k)) if k.verifying_key_as_point() != Point::identity() => add(&k),
                _ => obj! {"owner" => 0},
            });
        }
        op => panic!("plan: {op}"),
    }
    ev
}

fn derive<P: SchemeParams>(c: &J, seed: u64) -> J
where
    VerifyingKey<P::Curve>: PublicTweakable,
    SigningKey<P::Curve>: SecretTweakable,
{
    let t = c.get("t").i() as usize;
    let ids = numbers(c, "ids");
    let set: BTreeSet<u32> = ids.iter().copied().collect();
    let mut rng = Rng::new(seed, &c.render());
    let mut ev = c.clone();
    let mut text = "m".to_string();
    for s in c.get("path").a() {
        let i = from_limbs(s.get("i"), 4).expect("plan: index too large");
        text += &format!("/{}{}", u32::from_be_bytes(i.try_into().unwrap()), if s.get("hard").b() { "'" } else { "" });
    }
    let path: bip32::DerivationPath = text.parse().expect("plan: no such path");
    let sk = signing_key::<P>(c).unwrap();
    let parents = ThresholdKeyShare::<P, u32>::new_centralized(&mut rng, &set, t, Some(&sk)).unwrap();
    fn res<T>(r: &Result<Result<T, bip32::Error>, String>) -> &'static str {
        match r {
            Err(_) => "panic",
            Ok(Err(_)) => "err",
            Ok(Ok(_)) => "ok",
        }
    }
    let public = guarded(|| sk.verifying_key().derive_verifying_key_bip32(&path));
    ev.push("public_res", res(&public));
    ev.push("public", match &public {
        Ok(Ok(k)) => vkj::<P>(k),
        _ => inf(),
    });
    let (mut rs, mut vrs, mut vks, mut hs) = (vec![], vec![], vec![], BTreeMap::new());
    for (k, h) in &parents {
        let r = guarded(|| h.derive_bip32(&path));
        rs.push(J::from(res(&r)));
        if let Ok(Ok(d)) = r {
            hs.insert(*k, d);
        }
        let r = guarded(|| h.derive_verifying_key_bip32(&path));
        vrs.push(J::from(res(&r)));
        vks.push(match &r {
            Ok(Ok(k)) => vkj::<P>(k),
            _ => inf(),
        });
    }
    let mut convs = vec![];
    if hs.len() == ids.len() {
        for s in subsets(&ids).into_iter().filter(|s| s.len() >= t) {
            let sub: BTreeSet<u32> = s.iter().copied().collect();
            let ks: Vec<_> = s.iter().filter_map(|k| guarded(|| hs[k].to_key_share(&sub)).ok().and_then(|r| r.ok())).collect();
            convs.push(obj! {
                "ids" => J::A(s.iter().map(|k| J::from(*k)).collect()), "res" => if ks.len() == s.len() { "ok" } else { "err" },
                "secrets" => J::A(ks.iter().map(|k| scj(k.secret_share().expose_secret())).collect()),
                "vk" => ks.first().map(|k| vkj::<P>(&k.verifying_key())).unwrap_or_else(inf)
            });
        }
    }
    ev.push("res", J::A(rs));
    ev.push("vk_res", J::A(vrs));
    ev.push("vks", J::A(vks));
    ev.push("parents", J::A(parents.values().map(thr).collect()));
    ev.push("holders", J::A(hs.values().map(thr).collect()));
    ev.push("convs", J::A(convs));
    ev
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    for c in ctx.plan() {
        let test = c.get("params").s() != "p112";
        if c.get("op").s() == "derive" {
            out.ev(if test { derive::<TestParams>(&c, ctx.seed) } else { derive::<ProductionParams112>(&c, ctx.seed) });
            continue;
        }
        out.ev(if c.get("params").s() == "p112" { case::<ProductionParams112>(&c, ctx.seed) } else { case::<TestParams>(&c, ctx.seed) });
    }
    ctx.save(&out);
}
