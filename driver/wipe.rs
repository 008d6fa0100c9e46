// Memory of secrets: what is left of them on the heap when the values that hold them go away. Scripts of operations run twice: first to
// learn what the secrets look like in memory, then while the heap is being watched (see manul::heap).
use super::curve::scalar;
use super::paillier::*;
use super::util::*;
use crate::curve::{secret_split, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::{
    Ciphertext, MaskedRandomizer, PaillierParams, RPCommitmentWire, RPParams, RPSecret, Randomizer,
    SecretKeyPaillier, SecretKeyPaillierWire,
};
use crate::params::{
    scalar_from_signed, secret_scalar_from_signed, secret_scalar_from_wide_signed,
    secret_signed_from_scalar, SchemeParams,
};
use crate::zk::*;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable};
use crypto_bigint::{
    Integer, Monty, NonZero, RandomMod, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub,
};
use manul::heap::{aside, raw, seen, watch, Needle};
use serde::{de::value::Error as NoFormat, Deserialize, Serialize};
use std::prelude::v1::*;
use std::{format, vec};
// full{
use crate::entities::*;
use crate::tools::sss::*;
use manul::{
    protocol::{BoxedFormat, EntryPoint, Protocol},
    sim,
};
use std::collections::{BTreeMap, BTreeSet};
// full}

type C = ProductionParams112; // large scalars and integers
type K = TestParams; // keys that are quickly made
type Mo = <Int<C> as Integer>::Monty;

enum V {
    Scalar(Secret<Scalar<C>>),
    Many(Vec<Secret<Scalar<C>>>),
    Uint(Secret<Int<C>>),
    Wide(Secret<Wide<C>>),
    Monty(Secret<Mo>),
    Unsigned(SecretUnsigned<Int<C>>),
    WideUnsigned(SecretUnsigned<Wide<C>>),
    Signed(SecretSigned<Int<C>>),
    WideSigned(SecretSigned<Wide<C>>),
    Wire(SecretKeyPaillierWire<Pl<K>>),
    Key(SecretKeyPaillier<Pl<K>>),
    Rp(RPSecret<Pl<K>>),
    Plain(SecretSigned<Int<K>>),
    Unit(Randomizer<Pl<K>>),
    // full{
    Poly(Polynomial<C>),
    Share(KeyShare<C, u32>),
    Threshold(ThresholdKeyShare<C, u32>),
    Aux(BTreeMap<u32, AuxInfo<K, u32>>),
    Deal(BTreeMap<u32, (KeyShare<K, u32>, AuxInfo<K, u32>)>),
    // full}
}

/// What is public and lies ready: made before anything is watched.
struct Stage {
    modulus: NonZero<Int<C>>,
    mont: <Mo as Monty>::Params,
    zero: Vec<u8>,
    wire: SecretKeyPaillierWire<Pl<K>>,
    key: SecretKeyPaillier<Pl<K>>,
    rp: RPParams<Pl<K>>,
    cipher: Ciphertext<Pl<K>>,
    sk: ecdsa::SigningKey<<C as SchemeParams>::Curve>,
}
impl Stage {
    fn new(seed: u64) -> Self {
        let mut rng = Rng::new(seed, "wipe-stage");
        // a power of a large prime: what is drawn is a unit
        let mut m = Int::<C>::ONE;
        for _ in 0..33 {
            m = m.wrapping_mul(&Int::<C>::from((1u64 << 61) - 1));
        }
        let odd = crypto_bigint::Odd::new(m).unwrap();
        let mont = Mo::new_params_vartime(odd);
        let zero = raw(&<Mo as Monty>::zero(mont.clone()));
        let wire = SecretKeyPaillierWire::<Pl<K>>::random(&mut rng);
        let key = wire.clone().into_precomputed();
        let plain = SecretSigned::random_in_exponent_range(&mut rng, 100);
        let cipher = Ciphertext::new_with_randomizer(
            key.public_key(),
            &plain,
            &Randomizer::random(&mut rng, key.public_key()),
        );
        Stage {
            modulus: NonZero::new(m).unwrap(),
            mont,
            zero,
            rp: RPParams::random(&mut rng),
            cipher,
            wire,
            key,
            sk: ecdsa::SigningKey::random(&mut rng),
        }
    }
}

/// A part of a value: the same number in the forms it may have in memory.
type Part = Vec<Vec<u8>>;

fn number<T: BoxedEncoding>(x: &T) -> Part {
    let be = x.to_be_bytes().to_vec();
    // without the zero words of a number that is short for its type
    let words = be
        .chunks(8)
        .skip_while(|w| w.iter().all(|b| *b == 0))
        .flatten()
        .copied()
        .collect::<Vec<u8>>();
    let le = words.iter().rev().copied().collect();
    vec![le, words]
}
/// The lower half of a number whose upper half is public (that of the modulus).
fn lower<T: BoxedEncoding>(x: &T, size: usize) -> Part {
    let be = x.to_be_bytes().to_vec();
    let words = be[be.len() - size / 2..].to_vec();
    vec![words.iter().rev().copied().collect(), words]
}
fn monty(x: &Mo, st: &Stage) -> Part {
    // where zero is zero (the rest are parameters)
    let n = <Int<C> as crypto_bigint::Bounded>::BYTES;
    let at = st
        .zero
        .windows(n)
        .position(|w| w.iter().all(|b| *b == 0))
        .expect("no place for the residue");
    vec![raw(x)[at..at + n].to_vec()]
}
/// `(parts that are there while the value is, other forms of the secret)`
fn parts(v: &V, st: &Stage) -> (Vec<Part>, Vec<Part>) {
    let size = <Int<K> as crypto_bigint::Bounded>::BYTES;
    let one = |p: Part| (vec![p], vec![]);
    fn signed<T>(x: &SecretSigned<T>) -> (Vec<Part>, Vec<Part>)
    where
        T: zeroize::Zeroize
            + Integer
            + crypto_bigint::Bounded
            + BoxedEncoding
            + crypto_bigint::subtle::ConditionallySelectable,
    {
        (
            vec![number(x.to_public().value())],
            vec![number(x.abs_value().expose_secret())],
        )
    }
    let all = |l: Vec<(Vec<Part>, Vec<Part>)>| {
        let (a, b): (Vec<_>, Vec<_>) = l.into_iter().unzip();
        (a.concat(), b.concat())
    };
    match v {
        V::Scalar(x) => one(number(x.expose_secret())),
        V::Many(l) => (
            l.iter().map(|x| number(x.expose_secret())).collect(),
            vec![],
        ),
        V::Uint(x) => one(number(x.expose_secret())),
        V::Wide(x) => one(number(x.expose_secret())),
        V::Monty(x) => (
            vec![monty(x.expose_secret(), st)],
            vec![number(&x.expose_secret().retrieve())],
        ),
        V::Unsigned(x) => one(number(x.expose_secret())),
        V::WideUnsigned(x) => one(number(x.expose_secret())),
        V::Signed(x) => signed(x),
        V::WideSigned(x) => signed(x),
        V::Plain(x) => signed(x),
        V::Wire(x) => {
            let k = x.clone().into_precomputed();
            (
                vec![
                    number(&k.p_signed().to_public().value().clone()),
                    number(&k.q_signed().to_public().value().clone()),
                ],
                vec![lower(k.totient_wide_unsigned().expose_secret(), size)],
            )
        }
        V::Key(k) => (
            vec![
                number(&k.p_signed().to_public().value().clone()),
                number(&k.q_signed().to_public().value().clone()),
                lower(k.totient_wide_unsigned().expose_secret(), size),
                number(k.inv_modulus().expose_secret()),
            ],
            vec![number(&k.inv_totient().expose_secret().retrieve())],
        ),
        V::Rp(x) => (
            vec![
                number(x.lambda().expose_secret()),
                lower(x.totient_nonzero().expose_secret().as_ref(), size),
            ],
            vec![],
        ),
        V::Unit(x) => {
            let zero = crate::uint::PublicSigned::new_positive(Int::<K>::ZERO, 1).unwrap();
            let m: MaskedRandomizer<Pl<K>> = x.to_masked(x, &zero);
            let be = bytes_of(&val(&m)).expect("no number").clone();
            let le = be.iter().rev().copied().collect();
            one(vec![le, be])
        }
        // full{
        V::Poly(p) => one(number(
            p.evaluate(&from_value(&val(&Scalar::<C>::ZERO), false).expect("share id"))
                .expose_secret(),
        )),
        V::Share(k) => one(number(k.secret_share().expose_secret())),
        V::Threshold(k) => one(number(k.secret_share.expose_secret())),
        V::Aux(m) => all(m
            .values()
            .map(|a| parts(&V::Wire(a.secret.paillier_sk.clone()), st))
            .collect()),
        V::Deal(m) => all(m
            .values()
            .map(|a| parts(&V::Wire(a.1.secret.paillier_sk.clone()), st))
            .collect()),
        // full}
    }
}

// full{
/// The results of a session.
fn play<EP: EntryPoint<u32>>(
    rng: &mut Rng,
    entries: BTreeMap<u32, EP>,
) -> BTreeMap<u32, <EP::Protocol as Protocol<u32>>::Result> {
    let format = BoxedFormat::new::<manul::dev::BinaryFormat>();
    let run = sim::run(rng, entries, b"session", &format, &mut sim::NoControl, None);
    run.parties
        .into_iter()
        .map(|(k, p)| match p.outcome {
            sim::Outcome::Result(r) => (k, r),
            _ => panic!("a session fails"),
        })
        .collect()
}
// full}

/// A format that only knows byte strings, and keeps them in a place that is not watched.
struct Sink<'a>(&'a mut Vec<u8>);
macro_rules! refuse {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, NoFormat> { Err(serde::ser::Error::custom("bytes only")) })* };
}
type Never = serde::ser::Impossible<(), NoFormat>;
impl serde::Serializer for Sink<'_> {
    type Ok = ();
    type Error = NoFormat;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Never;
    type SerializeStruct = Never;
    type SerializeStructVariant = Never;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bytes(self, b: &[u8]) -> Result<(), NoFormat> {
        aside(|| self.0.extend_from_slice(b));
        Ok(())
    }
    refuse! {
        serialize_bool(bool) -> (); serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> (); serialize_i64(i64) -> ();
        serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> (); serialize_u64(u64) -> ();
        serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> ();
        serialize_none() -> (); serialize_unit() -> (); serialize_unit_struct(&'static str) -> ();
        serialize_unit_variant(&'static str, u32, &'static str) -> ();
        serialize_seq(Option<usize>) -> Never; serialize_tuple(usize) -> Never; serialize_tuple_struct(&'static str, usize) -> Never;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Never; serialize_map(Option<usize>) -> Never;
        serialize_struct(&'static str, usize) -> Never; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Never;
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<(), NoFormat> {
        x.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        x: &T,
    ) -> Result<(), NoFormat> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        x: &T,
    ) -> Result<(), NoFormat> {
        x.serialize(self)
    }
}
struct Source<'a>(&'a [u8]);
impl<'de> serde::Deserializer<'de> for Source<'_> {
    type Error = NoFormat;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<W: serde::de::Visitor<'de>>(self, v: W) -> Result<W::Value, NoFormat> {
        v.visit_bytes(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
fn through_bytes<T: Serialize + for<'de> Deserialize<'de>>(x: &T) -> T {
    let mut buf = vec![];
    x.serialize(Sink(&mut buf)).expect("not serializable");
    let y = T::deserialize(Source(&buf)).expect("not deserializable");
    aside(|| drop(buf));
    y
}

macro_rules! get {
    ($v:expr, $t:ident) => {
        match $v.as_ref() {
            Some(V::$t(x)) => x,
            _ => panic!("operand is not of type {}", stringify!($t)),
        }
    };
}
macro_rules! take {
    ($v:expr, $t:ident) => {
        match $v.take() {
            Some(V::$t(x)) => x,
            _ => panic!("operand is not of type {}", stringify!($t)),
        }
    };
}

fn apply(op: &str, a: &mut Option<V>, b: &mut Option<V>, st: &Stage, rng: &mut Rng) -> Option<V> {
    let bits = Int::<C>::BITS;
    Some(match op {
        "drop" => {
            *a = None;
            return None;
        }
        // scalars
        "scalar" => V::Scalar(Secret::init_with(|| Scalar::random(rng))),
        "s_clone" => V::Scalar(get!(a, Scalar).clone()),
        "s_add_rr" => V::Scalar(get!(a, Scalar) + get!(b, Scalar)),
        "s_add_rv" => V::Scalar(get!(a, Scalar) + take!(b, Scalar)),
        "s_add_vr" => V::Scalar(take!(a, Scalar) + get!(b, Scalar)),
        "s_add_vv" => V::Scalar(take!(a, Scalar) + take!(b, Scalar)),
        "s_add_rp" => V::Scalar(get!(a, Scalar) + &Scalar::from(77u64)),
        "s_add_vp" => V::Scalar(take!(a, Scalar) + &Scalar::from(77u64)),
        "s_sub_vv" => V::Scalar(take!(a, Scalar) - take!(b, Scalar)),
        "s_sub_vp" => V::Scalar(take!(a, Scalar) - &Scalar::from(77u64)),
        "s_mul_rr" => V::Scalar(get!(a, Scalar) * get!(b, Scalar)),
        "s_mul_vr" => V::Scalar(take!(a, Scalar) * get!(b, Scalar)),
        "s_mul_vv" => V::Scalar(take!(a, Scalar) * take!(b, Scalar)),
        "s_mul_rp" => V::Scalar(get!(a, Scalar) * Scalar::from(77u64)),
        "s_mul_vp" => V::Scalar(take!(a, Scalar) * Scalar::from(77u64)),
        "s_neg" => V::Scalar({
            let x: &Secret<Scalar<C>> = get!(a, Scalar);
            -x
        }),
        "s_select" => V::Scalar(Secret::<Scalar<C>>::conditional_select(
            get!(a, Scalar),
            get!(b, Scalar),
            Choice::from(1),
        )),
        "s_bytes" => V::Scalar(through_bytes(get!(a, Scalar))),
        "s_sum" => V::Scalar([get!(a, Scalar), get!(b, Scalar)].into_iter().sum()),
        "s_sum_v" => V::Scalar([take!(a, Scalar), take!(b, Scalar)].into_iter().sum()),
        "s_point" => {
            let g = get!(a, Scalar).mul_by_generator();
            let _ = g * get!(a, Scalar) + get!(a, Scalar).mul_by_generator();
            return None;
        }
        "s_sch" => {
            let x = get!(a, Scalar);
            let cap_x = x.mul_by_generator();
            let mask = SchSecret::<C>::random(rng);
            let com = SchCommitment::new(&mask);
            let _ = SchProof::<C>::new(&mask, x, &com, &cap_x, &b"aux");
            return None;
        }
        "s_key" => {
            let _ = get!(a, Scalar).to_signing_key();
            return None;
        }
        "s_split" => V::Many(secret_split(rng, take!(a, Scalar), 3)),
        "m_clone" => V::Many(get!(a, Many).clone()),
        "m_sum" => V::Scalar(get!(a, Many).iter().sum()),
        "m_sum_v" => V::Scalar(take!(a, Many).into_iter().sum()),
        "s_signed" => V::Signed(secret_signed_from_scalar::<C>(get!(a, Scalar))),
        "i_scalar" | "j_scalar" => V::Scalar(secret_scalar_from_signed::<C>(get!(a, Signed))),
        "w_scalar" => V::Scalar(secret_scalar_from_wide_signed::<C>(get!(a, WideSigned))),
        // words
        "uint" => V::Uint(Secret::init_with(|| Int::<C>::random_mod(rng, &st.modulus))),
        "u_clone" => V::Uint(get!(a, Uint).clone()),
        "u_add" => V::Uint(get!(a, Uint).wrapping_add(get!(b, Uint))),
        "u_sub" => V::Uint(get!(a, Uint).wrapping_sub(get!(b, Uint))),
        "u_mul" => V::Uint(get!(a, Uint).wrapping_mul(get!(b, Uint))),
        "u_neg" => V::Uint(get!(a, Uint).wrapping_neg()),
        "u_rem" => V::Uint(get!(a, Uint) % &(NonZero::new(st.modulus.as_ref() >> 1).unwrap())),
        "u_div" => V::Uint(take!(a, Uint) / NonZero::new(Int::<C>::from(7u32)).unwrap()),
        "u_wide" => V::Wide(get!(a, Uint).to_wide()),
        "u_select" => V::Uint(Secret::<Int<C>>::conditional_select(
            get!(a, Uint),
            get!(b, Uint),
            Choice::from(1),
        )),
        "u_bytes" => V::Uint(through_bytes(get!(a, Uint))),
        "u_monty" => V::Monty(get!(a, Uint).to_montgomery(&st.mont)),
        "u_unsigned" => V::Unsigned(SecretUnsigned::new(take!(a, Uint), bits).unwrap()),
        "u_signed" => V::Signed(
            SecretSigned::new_modulo(&take!(a, Uint) % &st.modulus, &st.modulus, bits).unwrap(),
        ),
        // residues
        "r_clone" => V::Monty(get!(a, Monty).clone()),
        "r_add" => V::Monty(get!(a, Monty) + get!(b, Monty)),
        "r_mul" => V::Monty(take!(a, Monty) * get!(b, Monty)),
        "r_sub" => V::Monty(take!(a, Monty) - take!(b, Monty)),
        "r_neg" => {
            let mut x = get!(a, Monty).clone();
            x.conditional_negate(Choice::from(1));
            V::Monty(x)
        }
        "r_pow" => {
            V::Monty(get!(a, Monty).pow(&SecretSigned::<Int<C>>::random_in_exponent_range(rng, 64)))
        }
        "r_uint" => V::Uint(get!(a, Monty).retrieve()),
        // bounded integers
        "n_clone" => V::Unsigned(get!(a, Unsigned).clone()),
        "n_add" => {
            let m = Secret::init_with(|| st.modulus.clone());
            V::Unsigned(get!(a, Unsigned).add_mod(get!(b, Unsigned), &m))
        }
        "n_and" => V::Unsigned(get!(a, Unsigned) & (Int::<C>::MAX >> 9)),
        "n_wide" => V::WideUnsigned(get!(a, Unsigned).to_wide()),
        "n_monty" => V::Monty(get!(a, Unsigned).to_montgomery(&st.mont)),
        "signed" => V::Signed(SecretSigned::random_in_exponent_range(rng, 300)),
        "signed_scaled" => {
            let scale = Int::<C>::MAX >> 1400;
            V::WideSigned(SecretSigned::<Int<C>>::random_in_exponent_range_scaled(
                rng, 700, &scale,
            ))
        }
        "i_clone" => V::Signed(get!(a, Signed).clone()),
        "i_neg" | "j_neg" => V::Signed({
            let x: &SecretSigned<Int<C>> = get!(a, Signed);
            -x
        }),
        "i_neg_v" => V::Signed(-take!(a, Signed)),
        "i_add" => V::Signed(take!(a, Signed) + get!(b, Signed)),
        "i_add_v" => V::Signed(take!(a, Signed) + take!(b, Signed)),
        "i_sub" => V::Signed(take!(a, Signed) - take!(b, Signed)),
        "i_mul" => V::Signed(take!(a, Signed) * get!(b, Signed)),
        "i_mul_v" => V::Signed(take!(a, Signed) * take!(b, Signed)),
        "i_mul_p" => V::Signed(
            get!(a, Signed)
                * crate::uint::PublicSigned::new_positive(Int::<C>::from(77u32), 7).unwrap(),
        ),
        "i_sum" => V::Signed(
            [get!(a, Signed), get!(b, Signed)]
                .into_iter()
                .cloned()
                .reduce(|x, y| x + y)
                .unwrap(),
        ),
        "i_abs" | "j_abs" => V::Unsigned(get!(a, Signed).abs()),
        "i_abs_value" => V::Uint(get!(a, Signed).abs_value()),
        "i_wide" => V::WideSigned(get!(a, Signed).to_wide()),
        "i_wide_mul" => V::WideSigned(get!(a, Signed).mul_wide_public(
            &crate::uint::PublicSigned::new_positive(Int::<C>::from(77u32), 7).unwrap(),
        )),
        "i_range" => V::Signed(take!(a, Signed).ensure_exponent_range(1300).unwrap()),
        "w_clone" => V::WideSigned(get!(a, WideSigned).clone()),
        // keys
        "wire" => V::Wire(SecretKeyPaillierWire::random(rng)),
        "k_copy" => V::Wire(st.wire.clone()),
        "k_clone" => V::Wire(get!(a, Wire).clone()),
        "k_public" => {
            let _ = get!(a, Wire).public_key();
            return None;
        }
        "k_key" => V::Key(take!(a, Wire).into_precomputed()),
        "p_clone" => V::Key(get!(a, Key).clone()),
        "p_wire" => V::Wire(take!(a, Key).into_wire()),
        "p_parts" => {
            let k = get!(a, Key);
            let _ = (k.p_signed(), k.q_signed(), k.totient_wide_unsigned());
            return None;
        }
        "p_rns" => {
            let k = get!(a, Key);
            let x = Int::<K>::random_mod(rng, &k.public_key().modulus_nonzero());
            let rns = k.rns_split(&x);
            let _ = (k.rns_join(&rns), k.rns_sqrt(&rns));
            let _ = k.random_nonsquare_residue(rng);
            return None;
        }
        "rp" => V::Rp(RPSecret::random(rng)),
        "l_params" => {
            let _ = RPParams::random_with_secret(rng, get!(a, Rp));
            return None;
        }
        "l_random" => {
            let _ = get!(a, Rp).random_residue_mod_totient(rng);
            return None;
        }
        "plain" => V::Plain(SecretSigned::random_in_exponent_range(rng, 120)),
        "x_encrypt" => {
            let _ = Ciphertext::new_with_randomizer(
                st.key.public_key(),
                get!(a, Plain),
                &Randomizer::random(rng, st.key.public_key()),
            );
            return None;
        }
        "x_encrypt_unit" => {
            let _ =
                Ciphertext::new_with_randomizer(st.key.public_key(), get!(a, Plain), get!(b, Unit));
            return None;
        }
        "x_commit" => {
            let _: RPCommitmentWire<Pl<K>> = st
                .rp
                .commit(
                    get!(a, Plain),
                    &SecretSigned::<Int<K>>::random_in_exponent_range(rng, 120),
                )
                .to_wire();
            return None;
        }
        "x_homo" => {
            let _ = &st.cipher * get!(a, Plain);
            return None;
        }
        "unit" => V::Unit(Randomizer::random(rng, st.key.public_key())),
        "t_clone" => V::Unit(get!(a, Unit).clone()),
        "decrypt" => V::Plain(st.cipher.decrypt(&st.key)),
        "decrypt_unit" => V::Unit(st.cipher.derive_randomizer(&st.key)),
        // full{
        "s_poly" => V::Poly(Polynomial::random(rng, take!(a, Scalar), 3)),
        "y_eval" => V::Scalar(get!(a, Poly).evaluate(&ShareId::new(5))),
        "y_public" => {
            let _ = get!(a, Poly).public();
            return None;
        }
        "s_shamir" => {
            let m = shamir_split(rng, take!(a, Scalar), 2, &shamir_evaluation_points::<C>(3));
            V::Many(m.into_values().collect())
        }
        "m_join" => {
            let m: BTreeMap<ShareId<C>, _> = shamir_evaluation_points::<C>(3)
                .into_iter()
                .zip(take!(a, Many))
                .collect();
            V::Scalar(shamir_join_scalars(m))
        }
        "share" => {
            let ids = BTreeSet::from([1u32, 2, 3]);
            let mut all = KeyShare::<C, u32>::new_centralized(rng, &ids, Some(&st.sk));
            V::Share(all.remove(&2).unwrap())
        }
        "a_clone" => V::Share(get!(a, Share).clone()),
        "a_threshold" => V::Threshold(ThresholdKeyShare::from_key_share(get!(a, Share))),
        "threshold" => {
            let ids = BTreeSet::from([1u32, 2, 3]);
            let mut all =
                ThresholdKeyShare::<C, u32>::new_centralized(rng, &ids, 2, Some(&st.sk)).unwrap();
            V::Threshold(all.remove(&2).unwrap())
        }
        "h_clone" => V::Threshold(get!(a, Threshold).clone()),
        "h_share" => V::Share(
            get!(a, Threshold)
                .to_key_share(&BTreeSet::from([1u32, 2, 3]))
                .unwrap(),
        ),
        "h_child" => V::Threshold(
            get!(a, Threshold)
                .derive_bip32(&"m/1/2".parse().unwrap())
                .unwrap(),
        ),
        "key_init" => {
            let ids = BTreeSet::from([1u32, 2]);
            let all = play(
                rng,
                ids.iter()
                    .map(|k| (*k, crate::KeyInit::<C, u32>::new(ids.clone()).unwrap()))
                    .collect(),
            );
            V::Share(all.into_values().next().unwrap())
        }
        "aux_gen" => {
            let ids = BTreeSet::from([1u32, 2]);
            V::Aux(play(
                rng,
                ids.iter()
                    .map(|k| (*k, crate::AuxGen::<K, u32>::new(ids.clone()).unwrap()))
                    .collect(),
            ))
        }
        "key_refresh" => {
            let ids = BTreeSet::from([1u32, 2]);
            let all = play(
                rng,
                ids.iter()
                    .map(|k| (*k, crate::KeyRefresh::<K, u32>::new(ids.clone()).unwrap()))
                    .collect(),
            );
            V::Aux(all.into_iter().map(|(k, (_, a))| (k, a)).collect())
        }
        "deal" => {
            let ids = BTreeSet::from([1u32, 2]);
            let mut aux = AuxInfo::new_centralized(rng, &ids);
            V::Deal(
                KeyShare::new_centralized(rng, &ids, None)
                    .into_iter()
                    .map(|(k, s)| (k, (s, aux.remove(&k).unwrap())))
                    .collect(),
            )
        }
        "d_sign" => {
            let mut m = elliptic_curve::FieldBytes::<<K as SchemeParams>::Curve>::default();
            m[20..].copy_from_slice(&[1, 2, 3, 4]);
            let _ = play(
                rng,
                get!(a, Deal)
                    .iter()
                    .map(|(k, (s, x))| {
                        (
                            *k,
                            crate::InteractiveSigning::new(m, s.clone(), x.clone()).unwrap(),
                        )
                    })
                    .collect(),
            );
            return None;
        }
        "reshare" => {
            let olds = BTreeSet::from([1u32, 2]);
            let ids = BTreeSet::from([11u32, 12]);
            let old =
                ThresholdKeyShare::<C, u32>::new_centralized(rng, &olds, 2, Some(&st.sk)).unwrap();
            let vk = old[&1].verifying_key().unwrap();
            let mut all = BTreeMap::new();
            old.into_iter().for_each(|(k, key_share)| {
                all.insert(
                    k,
                    crate::KeyResharing::new(
                        Some(crate::OldHolder { key_share }),
                        None,
                        ids.clone(),
                        2,
                    ),
                );
            });
            ids.iter().for_each(|k| {
                let new = crate::NewHolder {
                    verifying_key: vk.clone(),
                    old_threshold: 2,
                    old_holders: olds.clone(),
                };
                all.insert(
                    *k,
                    crate::KeyResharing::new(None, Some(new), ids.clone(), 2),
                );
            });
            V::Threshold(play(rng, all).remove(&11).unwrap().unwrap())
        }
        // full}
        // refusals
        "u_refused" => {
            assert!(bool::from(
                SecretUnsigned::new(take!(a, Uint), 100).is_none()
            ));
            return None;
        }
        "i_refused" => {
            assert!(bool::from(
                take!(a, Signed).ensure_exponent_range(10).is_none()
            ));
            return None;
        }
        "i_overflow" => {
            let x = take!(a, Signed);
            assert!(guarded(move || (0..9).fold(x.clone(), |y, _| y * &x)).is_err());
            return None;
        }
        _ => panic!("no operation {op}"),
    })
}

const REGISTERS: usize = 16;

/// Runs the steps of a script; `after` is called when a step is done.
fn script(
    c: &J,
    st: &Stage,
    rng: &mut Rng,
    regs: &mut [Option<V>],
    mut after: impl FnMut(&mut [Option<V>]),
) {
    for s in c.get("steps").a() {
        let at = |k: &str| s.get(k).i() as usize;
        let (i, j, o) = aside(|| (at("a"), at("b"), at("out")));
        let mut a = regs.get_mut(i).and_then(|r| r.take());
        let mut b = regs.get_mut(j).and_then(|r| r.take());
        let out = apply(s.get("op").s(), &mut a, &mut b, st, rng);
        if a.is_some() {
            regs[i] = a;
        }
        if b.is_some() {
            regs[j] = b;
        }
        if out.is_some() {
            regs[o] = out;
        }
        aside(|| after(regs));
    }
}

fn case(c: &J, st: &Stage, seed: u64) -> J {
    let mut rng = Rng::new(seed, &c.render());
    let rng2 = &mut rng.clone();
    let empty = || (0..REGISTERS).map(|_| None).collect::<Vec<Option<V>>>();
    // what there is to look for: every form of every part of every value
    let mut forms: Vec<Part> = vec![];
    let mut main: Vec<bool> = vec![];
    let mut id = |p: Part, m: bool| -> usize {
        let k = forms.iter().position(|f| *f == p).unwrap_or_else(|| {
            forms.push(p);
            main.push(false);
            forms.len() - 1
        });
        main[k] |= m;
        k
    };
    let mut there: Vec<J> = vec![];
    let first = guarded(|| {
        let mut regs = empty();
        script(c, st, &mut rng, &mut regs, |regs| {
            let mut l = vec![];
            for (i, r) in regs.iter().enumerate() {
                if let Some(v) = r {
                    let (p, q) = parts(v, st);
                    let ids: Vec<usize> = p
                        .into_iter()
                        .filter(|p| !p[0].is_empty())
                        .map(|p| id(p, true))
                        .collect();
                    q.into_iter().for_each(|p| {
                        id(p, false);
                    });
                    l.push(obj! {"r" => i, "parts" => J::A(ids.into_iter().map(|k| k.into()).collect())});
                }
            }
            there.push(J::A(l));
        });
    });
    let mut steps = vec![];
    let needles = forms
        .iter()
        .enumerate()
        .map(|(id, parts)| Needle {
            id,
            parts: parts.clone(),
        })
        .collect();
    let set = |l: Vec<usize>| -> J {
        let mut l: Vec<usize> = l;
        l.sort();
        J::A(l.into_iter().map(|k| k.into()).collect())
    };
    let second = first.and_then(|_| {
        let mut regs = empty();
        let steps = &mut steps;
        guarded(|| {
            watch(needles, || {
                script(c, st, rng2, &mut regs, |_| {
                    let (freed, held) = seen();
                    let k = steps.len();
                    steps.push(obj! {
                        "live" => there[k].clone(), "freed" => set(freed),
                        "held" => set(held.into_iter().filter(|h| main[*h]).collect())
                    });
                });
                regs.iter_mut().for_each(|r| *r = None);
                let (freed, held) = seen();
                aside(|| {
                    steps.push(
                        obj! {"live" => J::A(vec![]), "freed" => set(freed), "held" => set(held)},
                    )
                });
            })
        })
    });
    // parts that occur in others (an integer in its extension to a wider type)
    let inside = |a: &Part, b: &Part| {
        a.iter().any(|x| {
            b.iter()
                .any(|y| !x.is_empty() && y.windows(x.len()).any(|w| w == &x[..]))
        })
    };
    let mut within = vec![];
    for (x, a) in forms.iter().enumerate() {
        for (y, b) in forms.iter().enumerate() {
            if x != y && inside(a, b) {
                within.push(J::A(vec![x.into(), y.into()]));
            }
        }
    }
    let mut ev = c.clone();
    ev.push("within", J::A(within));
    ev.push("panic", second.is_err());
    ev.push("msg", second.err().unwrap_or_default());
    ev.push("seen", J::A(steps));
    ev
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let st = Stage::new(ctx.seed);
    for c in ctx.plan() {
        if c.get("full").b() && !super::FULL {
            continue;
        }
        out.ev(case(&c, &st, ctx.seed));
    }
    ctx.save(&out);
}
