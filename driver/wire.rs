// Serialized forms put together from given contents, and round trips of everything that is sent or stored.
use super::curve::{ptj, scj};
use super::paillier::*;
use super::util::*;
use super::zk::Fix;
use super::FULL;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::entities::*; // full
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::HashOutput;
use crate::tools::sss::{Polynomial, PublicPolynomial, ShareId};
use crate::uint::PublicUint;
use crypto_bigint::{modular::Retrieve, U256};
use std::collections::{BTreeMap, BTreeSet};
use std::prelude::v1::*;
use std::{format, vec};

fn hex_text(b: &[u8], mode: &str) -> String {
    // the prefix the library gives to such texts
    let own = match to_value(&PublicUint::<U256>::from(U256::from_u64(0)), true).unwrap() {
        Value::Str(s) => s,
        v => panic!("a number is shown as {v:?}"),
    };
    let prefix = own.strip_suffix(&"0".repeat(64)).expect("the text of zero does not end with zeros");
    let h = hex(b);
    match mode {
        "bare" => h,
        "upper" => format!("{prefix}{}", h.to_uppercase()),
        "odd" => format!("{prefix}{}", &h[1..]),
        "digit" => format!("{prefix}{}g", &h[..h.len() - 1]),
        _ => format!("{prefix}{h}"),
    }
}
fn base64_text(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let own = |n: usize, s: &[u8]| match to_value(&BitVec::from_xof_reader(&mut Stream::new(s.to_vec()), n), true).unwrap() {
        Value::Map(l) => l
            .into_iter()
            .find_map(|(_, v)| match v {
                Value::Str(s) => Some(s),
                _ => None,
            })
            .expect("a bit vector has no text"),
        v => panic!("a bit vector is shown as {v:?}"),
    };
    let padded = own(8, &[0]).ends_with('=');
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = c.iter().fold(0u32, |n, b| n << 8 | *b as u32) << (8 * (3 - c.len()));
        for k in 0..=c.len() {
            s.push(A[(n >> (18 - 6 * k)) as usize & 63] as char);
        }
        if padded {
            s.push_str(&"=".repeat(3 - c.len()));
        }
    }
    // the library's own text of the same bytes, to be sure of the alphabet
    let o = own(8 * b.len(), b);
    if o.len() == s.len() {
        o
    } else {
        s
    }
}
fn fill(v: &mut Value, c: &J, b: &[u8], text: bool, base64: bool) {
    let human = c.get("human").b();
    match v {
        Value::Bytes(_) | Value::Str(_) => {
            *v = match (c.get("text").s(), human, text) {
                ("type", _, _) => Value::U(3),
                (_, false, _) => Value::Bytes(b.to_vec()),
                (mode, true, _) => Value::Str(if base64 { base64_text(b) } else { hex_text(b, mode) }),
            }
        }
        Value::Bool(x) => *x = c.get("neg").b(),
        Value::U(x) => *x = c.get("bound").i() as u128,
        Value::Map(l) => l.iter_mut().for_each(|(_, x)| fill(x, c, b, text, base64)),
        Value::Seq(l) => l.iter_mut().for_each(|x| fill(x, c, b, text, base64)),
        v => panic!("unexpected part {v:?} of a serialized form"),
    }
}
fn read<T>(c: &J, sample: T, base64: bool, show: impl Fn(&T) -> J, none: J) -> (J, J)
where
    T: serde::Serialize + for<'de> serde::Deserialize<'de>,
{
    let human = c.get("human").b();
    let b: Vec<u8> = c.get("bytes").a().iter().map(|x| x.i() as u8).collect();
    let mut v = to_value(&sample, human).expect("serialize");
    fill(&mut v, c, &b, human, base64);
    let r = outcome(|| from_value::<T>(&v, human).ok(), |x| show(&x), none.clone());
    let back = outcome(
        || {
            let x = from_value::<T>(&v, human).ok()?;
            from_value::<T>(&to_value(&x, human).ok()?, human).ok()
        },
        |x| show(&x),
        none,
    );
    (r, back)
}
pub(crate) fn share_scalar<P: SchemeParams>(s: &ShareId<P>) -> Scalar<P> {
    from_value(&val(s), false).expect("a share id is not a scalar")
}
pub(crate) fn poly_points<P: SchemeParams>(p: &PublicPolynomial<P>) -> Vec<Point<P>> {
    from_value(&val(p), false).expect("a public polynomial is not a list of points")
}
fn e() -> J {
    J::A(vec![])
}
fn raw<P: SchemeParams>(c: &J) -> (J, J) {
    let inf = || obj! {"inf" => true, "x" => e(), "y" => e()};
    match c.get("op").s() {
        "scalar" => read(c, Scalar::<P>::ONE, false, scj, e()),
        "point" => read(c, Point::<P>::generator(), false, ptj, inf()),
        "uint" => read(c, PublicUint::<U256>::from(U256::from_u64(1)), false, |x| nj(x.as_ref()), e()),
        "signed" => read(
            c,
            PublicSigned::<U256>::new_positive(U256::from_u64(1), 8).unwrap(),
            false,
            |x| obj! {"v" => pz(x), "b" => x.bound()},
            obj! {"v" => z0(), "b" => 0},
        ),
        "modulus" => read(c, Fix::<P>::get().sk0.public_key().clone().into_wire(), false, |x| nj(x.modulus()), e()),
        "bits" => read(c, BitVec::from_xof_reader(&mut Stream::new(vec![1]), 8), true, |x| J::from(x.bits().to_vec()), e()),
        "hash" => read(
            c,
            {
                let d = crate::tools::hashing::Hasher::<P::Digest>::new_with_dst(b"");
                d.finalize(16)
            },
            false,
            |x: &HashOutput| J::from(bytes_of(&val(x)).expect("bytes").clone()),
            e(),
        ),
        op => panic!("plan: {op}"),
    }
}

/// A round trip: views before and after, the serialized forms, and the fate of forms without one of their fields.
fn trip<T>(c: &J, x: &T, view: impl Fn(&T) -> Vec<J>) -> J
where
    T: serde::Serialize + for<'de> serde::Deserialize<'de>,
{
    let human = c.get("human").b();
    let form = to_value(x, human).expect("serialize");
    let r = guarded(|| from_value::<T>(&form, human).ok());
    let mut short = vec![];
    if let Value::Map(l) = &form {
        for k in 0..l.len() {
            if !matches!(l[k].0, Value::Str(_)) || matches!(l[k].1, Value::Unit) {
                continue;
            }
            let mut less = l.clone();
            less.remove(k);
            short.push(J::from(match guarded(|| from_value::<T>(&Value::Map(less), human).is_ok()) {
                Err(_) => "panic",
                Ok(true) => "read",
                Ok(false) => "refused",
            }));
        }
    }
    let (panic, y) = match r {
        Err(_) => (true, None),
        Ok(y) => (false, y),
    };
    let fa = y.as_ref().map(|y| format!("{:?}", to_value(y, human))).unwrap_or_default();
    obj! {
        "panic" => panic, "some" => y.is_some(), "before" => J::A(view(x)), "after" => J::A(y.as_ref().map(|y| view(y)).unwrap_or_default()),
        "form_before" => format!("{:?}", Ok::<_, ()>(&form)), "form_after" => fa, "short" => J::A(short)
    }
}
fn map_view<K: Ord + Copy + Into<J>, V>(m: &BTreeMap<K, V>, f: impl Fn(&V) -> J) -> J {
    J::A(m.iter().map(|(k, v)| J::A(vec![(*k).into(), f(v)])).collect())
}
fn kinds<P: SchemeParams>(c: &J) -> J {
    let n = c.get("n").i() as usize;
    let mut rng = Rng::new(n as u64, "wire");
    let f = Fix::<P>::get();
    let pk = f.sk0.public_key();
    let ids: BTreeSet<u32> = (0..n as u32).map(|k| 3 * k + 1).collect();
    let owner = *ids.iter().nth(n / 2).unwrap();
    let points = |rng: &mut Rng| -> BTreeMap<u32, Point<P>> { ids.iter().map(|k| (*k, Scalar::random(rng).mul_by_generator())).collect() };
    // full{
    let aux = || AuxInfo::<P, u32>::new_centralized(&mut Rng::new(n as u64, "wire"), &ids).remove(&owner).unwrap();
    let paux = |x: &PublicAuxInfo<P>| {
        let p = x.rp_params.to_precomputed();
        J::A(vec![wire_num(&x.paillier_pk), nj(x.rp_params.modulus()), nj(&p.base_randomizer().retrieve()), nj(&p.base_value().retrieve())])
    };
    // full}
    match c.get("what").s() {
        "pk" => trip(c, &pk.clone().into_wire(), |x| vec![nj(x.modulus())]),
        "sk" => trip(c, &f.sk0.clone().into_wire(), |x| {
            let s = x.clone().into_precomputed();
            vec![sz(&s.p_signed()), sz(&s.q_signed()), nj(s.public_key().modulus())]
        }),
        "cipher" => trip(c, &Ciphertext::new_with_randomizer(pk, &super::zk::small::<Int<P>>(n as i64, 8), &Randomizer::random(&mut rng, pk)).to_wire(), |x| {
            vec![wire_num(x), sz(&x.to_precomputed(pk).decrypt(&f.sk0))]
        }),
        "masked" => {
            let r = Randomizer::<Pl<P>>::random(&mut rng, pk);
            trip(c, &r.to_masked(&r, &PublicSigned::new_from_unsigned(Default::default(), 0).unwrap()), |x| vec![wire_num(x)])
        }
        "rp" => trip(c, &f.setup.to_wire(), |x| {
            let p = x.to_precomputed();
            vec![nj(x.modulus()), nj(&p.base_randomizer().retrieve()), nj(&p.base_value().retrieve())]
        }),
        "rpcom" => {
            let x = super::zk::small::<Int<P>>(n as i64, 8);
            trip(c, &f.setup.commit(&x, &x).to_wire(), |x| vec![wire_num(x), wire_num(&x.to_precomputed(&f.setup).to_wire())])
        }
        // full{
        "keyshare" => {
            let x = KeyShare::<P, u32>::new_centralized(&mut rng, &ids, None).remove(&owner).unwrap();
            trip(c, &x, |x| vec![J::from(*x.owner()), scj(x.secret_share().expose_secret()), map_view(x.public_shares(), ptj), ptj(&x.verifying_key_as_point())])
        }
        "tshare" => {
            let x = ThresholdKeyShare::<P, u32>::new_centralized(&mut rng, &ids, n.div_ceil(2), None).unwrap().remove(&owner).unwrap();
            trip(c, &x, |x| {
                vec![
                    J::from(x.owner), J::from(x.threshold), scj(x.secret_share.expose_secret()), map_view(&x.public_shares, ptj),
                    map_view(&x.share_ids, |s| scj(&share_scalar(s))),
                ]
            })
        }
        "change" => {
            let x = KeyShareChange::<P, u32> {
                owner,
                secret_share_change: secret(Scalar::random(&mut rng)),
                public_share_changes: points(&mut rng).into(),
            };
            trip(c, &x, |x| vec![J::from(x.owner), scj(x.secret_share_change.expose_secret()), map_view(&x.public_share_changes, ptj)])
        }
        "aux" => trip(c, &aux(), |x| {
            let s = x.secret.paillier_sk.clone().into_precomputed();
            vec![J::from(x.owner), sz(&s.p_signed()), sz(&s.q_signed()), map_view(x.public.as_map(), paux)]
        }),
        "subset" => trip(c, &aux().public.subset(&[owner].into()).unwrap(), |x| vec![map_view(x.as_map(), paux)]),
        // full}
        "share_id" => trip(c, &ShareId::<P>::new(n as u64), |x| vec![scj(&share_scalar(x))]),
        "poly" => trip(c, &Polynomial::<P>::random(&mut rng, secret(Scalar::ONE), n).public(), |x: &PublicPolynomial<P>| {
            vec![J::A(poly_points::<P>(x).iter().map(ptj).collect())]
        }),
        w if FULL => panic!("plan: {w}"),
        _ => J::from(false),
    }
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    for c in ctx.plan() {
        let mut ev = c.clone();
        let test = c.get("params").s() != "p112";
        if c.get("op").s() == "trip" {
            let r = if test { kinds::<TestParams>(&c) } else { kinds::<ProductionParams112>(&c) };
            if r == J::from(false) {
                continue;
            }
            for k in ["panic", "some", "before", "after", "form_before", "form_after", "short"] {
                ev.push(k, r.get(k).clone());
            }
        } else {
            let (r, back) = if test { raw::<TestParams>(&c) } else { raw::<ProductionParams112>(&c) };
            ev.push("res", r);
            ev.push("back", back);
        }
        out.ev(ev);
    }
    ctx.save(&out);
}
