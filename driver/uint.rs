use super::util::*;
use crate::uint::{Exponentiable, Extendable, FromXofReader, IsInvertible, MulWide, PublicUint, ToMontgomery};
use crypto_bigint::{
    subtle::{ConditionallySelectable, CtOption},
    Bounded, CheckedAdd, CheckedMul, CheckedSub, Gcd, Integer, Invert, Monty, NonZero, Odd, PowBoundedExp, RandomMod, Uint,
    U1024, U128, U192, U2048, U256, U320, U4096, U512, U64, U640,
};
use std::prelude::v1::*;
use std::{format, vec};
use zeroize::Zeroize;

fn none() -> J {
    obj! {"v" => z0(), "b" => -1}
}
fn showp<T: Integer + Bounded + BoxedEncoding>(x: PublicSigned<T>) -> J {
    obj! {"v" => pz(&x), "b" => x.bound()}
}
fn shows<T: Zeroize + Integer + Bounded + BoxedEncoding + ConditionallySelectable>(x: SecretSigned<T>) -> J {
    obj! {"v" => sz(&x), "b" => x.bound()}
}
fn showu<T: Zeroize + Integer + Bounded + BoxedEncoding>(x: SecretUnsigned<T>) -> J {
    obj! {"v" => zj(false, x.expose_secret()), "b" => x.bound()}
}
fn shown<T: BoxedEncoding>(x: T) -> J {
    obj! {"v" => zj(false, &x), "b" => 0}
}

trait N: Zeroize + Integer + Bounded + BoxedEncoding + ConditionallySelectable + RandomMod {}
impl<T: Zeroize + Integer + Bounded + BoxedEncoding + ConditionallySelectable + RandomMod> N for T {}

fn ct<T>(x: CtOption<T>) -> Option<T> {
    x.into()
}

/// Executes one planned case on `T` (and its double width `W`).
fn case<T, W>(c: &J, rng: &mut Rng) -> J
where
    T: N + Extendable<W> + MulWide<T, W>,
    W: N,
{
    let (a, b) = (c.get("a"), c.get("b"));
    let (ab, bb, e) = (c.get("ab").i() as u32, c.get("bb").i() as u32, c.get("e").i() as u32);
    let aw = || word::<T>(a).expect("plan: a does not fit");
    let bw = || word::<T>(b).expect("plan: b does not fit");
    let s = |z: &J, bd: u32| -> SecretSigned<T> {
        ct(SecretSigned::new_from_unsigned(secret(word::<T>(z).expect("plan")), bd)).expect("constructor refused a valid value")
    };
    let p = |z: &J, bd: u32| -> PublicSigned<T> {
        PublicSigned::new_from_unsigned(word::<T>(z).expect("plan"), bd).expect("constructor refused a valid value")
    };
    match c.get("op").s() {
        // constructors; `a` is the two's complement reading of the word passed in
        "s_new" => outcome(|| ct(SecretSigned::<T>::new_from_unsigned(secret(aw()), ab)), shows, none()),
        "p_new" => outcome(|| PublicSigned::<T>::new_from_unsigned(aw(), ab), showp, none()),
        "s_newpos" => outcome(|| ct(SecretSigned::<T>::new_positive(secret(aw()), ab)), shows, none()),
        "p_newpos" => outcome(|| PublicSigned::<T>::new_positive(aw(), ab), showp, none()),
        "u_new" => outcome(|| ct(SecretUnsigned::<T>::new(secret(aw()), ab)), showu, none()),
        "s_mod" => outcome(
            || ct(SecretSigned::<T>::new_modulo(secret(aw()), &NonZero::new(bw()).unwrap(), e)),
            shows,
            none(),
        ),
        // unary
        "s_neg" => outcome(|| Some(s(a, ab).neg()), shows, none()),
        "s_negop" => outcome(|| Some(-s(a, ab)), shows, none()),
        "s_negopr" => outcome(|| Some(-&s(a, ab)), shows, none()),
        "p_neg" => outcome(|| Some(p(a, ab).neg()), showp, none()),
        "p_negop" => outcome(|| Some(-p(a, ab)), showp, none()),
        "s_abs" => outcome(|| Some(s(a, ab).abs()), showu, none()),
        "s_absv" => outcome(
            || Some(s(a, ab).abs_value()),
            |x| obj! {"v" => zj(false, x.expose_secret()), "b" => ab},
            none(),
        ),
        "p_abs" => outcome(|| Some(p(a, ab).abs()), |x| obj! {"v" => zj(false, &x), "b" => ab}, none()),
        "s_pub" => outcome(|| Some(s(a, ab).to_public()), showp, none()),
        "p_val" => outcome(|| Some(p(a, ab)), |x| obj! {"v" => tz(x.value()), "b" => x.bound()}, none()),
        "s_sign" => outcome(
            || Some(s(a, ab)),
            |x| obj! {"v" => obj!{"neg" => bool::from(x.is_negative()), "mag" => J::A(vec![1.into()])}, "b" => x.bound()},
            none(),
        ),
        "p_sign" => outcome(
            || Some(p(a, ab)),
            |x| obj! {"v" => obj!{"neg" => x.is_negative(), "mag" => J::A(vec![1.into()])}, "b" => x.bound()},
            none(),
        ),
        "s_wide" => outcome(|| Some(s(a, ab).to_wide::<W>()), shows, none()),
        "p_wide" => outcome(|| Some(p(a, ab).to_wide::<W>()), showp, none()),
        "u_wide" => outcome(
            || Some(ct(SecretUnsigned::<T>::new(secret(aw()), ab)).unwrap().to_wide::<W>()),
            showu,
            none(),
        ),
        "n_wide" => outcome(|| Some(Extendable::<W>::to_wide(&aw())), shown, none()),
        "n_narrow" => outcome(
            || <T as Extendable<W>>::try_from_wide(&word::<W>(a).expect("plan")),
            shown,
            none(),
        ),
        "n_mulwide" => outcome(|| Some(MulWide::<T, W>::mul_wide(&aw(), &bw())), shown, none()),
        // binary
        "ss_add" => outcome(|| ct(s(a, ab).checked_add(&s(b, bb))), shows, none()),
        "ss_sub" => outcome(|| ct(s(a, ab).checked_sub(&s(b, bb))), shows, none()),
        "ss_mul" => outcome(|| ct(s(a, ab).checked_mul(&s(b, bb))), shows, none()),
        "sp_add" => outcome(|| ct(s(a, ab).checked_add(&p(b, bb))), shows, none()),
        "sp_mul" => outcome(|| ct(s(a, ab).checked_mul(&p(b, bb))), shows, none()),
        "ss_addop" => outcome(|| Some(s(a, ab) + s(b, bb)), shows, none()),
        "ss_addopr" => outcome(|| Some(s(a, ab) + &s(b, bb)), shows, none()),
        "ss_subop" => outcome(|| Some(s(a, ab) - s(b, bb)), shows, none()),
        "ss_mulop" => outcome(|| Some(s(a, ab) * s(b, bb)), shows, none()),
        "ss_mulopr" => outcome(|| Some(s(a, ab) * &s(b, bb)), shows, none()),
        "sp_addop" => outcome(|| Some(s(a, ab) + p(b, bb)), shows, none()),
        "sp_mulop" => outcome(|| Some(&s(a, ab) * p(b, bb)), shows, none()),
        "sp_mulwide" => outcome(|| Some(s(a, ab).mul_wide_public::<T, W>(&p(b, bb))), shows, none()),
        "u_addmod" => outcome(
            || {
                let m = c.get("m");
                let x = ct(SecretUnsigned::<T>::new(secret(aw()), ab)).unwrap();
                let y = ct(SecretUnsigned::<T>::new(secret(bw()), bb)).unwrap();
                let m = nat::<T>(m).unwrap();
                Some(x.add_mod(&y, &Secret::init_with(|| NonZero::new(m).unwrap())))
            },
            showu,
            none(),
        ),
        // ranges
        "p_in" => outcome(
            || if p(a, ab).is_in_exponent_range(e) { Some(p(a, ab)) } else { None },
            showp,
            none(),
        ),
        "s_ensure" => outcome(|| ct(s(a, ab).ensure_exponent_range(e)), shows, none()),
        "s_assert" => outcome(
            || {
                s(a, ab).assert_exponent_range(e);
                Some(s(a, ab))
            },
            shows,
            none(),
        ),
        op => panic!("unknown operation {op}"),
    }
}

/// Samplers. All samples of one call are recorded.
fn sampler<T, W, XW>(c: &J, rng: &mut Rng) -> J
where
    T: N + Extendable<W>,
    W: N + Extendable<XW>,
    XW: N,
{
    let e = c.get("e").i() as u32;
    let n = c.get("n").i() as usize;
    let scale = c.get("a");
    let r = guarded(|| {
        let mut v = vec![];
        for i in 0..n {
            let x = match c.get("op").s() {
                "rand" => shows(SecretSigned::<T>::random_in_exponent_range(rng, e)),
                "rand_scaled" => shows(SecretSigned::<T>::random_in_exponent_range_scaled::<W>(
                    rng,
                    e,
                    &word::<T>(scale).unwrap(),
                )),
                "rand_scaled_wide" => shows(SecretSigned::<T>::random_in_exponent_range_scaled_wide::<W, XW>(
                    rng,
                    e,
                    &word::<W>(scale).unwrap(),
                )),
                "xof_signed" => {
                    let mut rd = Bytes::of(rng, i);
                    showp(PublicSigned::<T>::from_xof_reader_in_exponent_range(&mut rd, e))
                }
                op => panic!("unknown sampler {op}"),
            };
            v.push(x);
        }
        v
    });
    match r {
        Ok(v) => obj! {"panic" => false, "vals" => v, "msg" => ""},
        Err(m) => obj! {"panic" => true, "vals" => J::A(vec![]), "msg" => m},
    }
}

/// An extendable output that is mostly random and sometimes extreme.
pub struct Bytes {
    rng: Rng,
    fixed: Option<u8>,
    pub seen: Vec<u8>,
}
impl Bytes {
    pub fn of(rng: &mut Rng, i: usize) -> Self {
        use rand_core::RngCore;
        let fixed = match i {
            0 => Some(0),
            1 => Some(0xff),
            _ => None,
        };
        Bytes { rng: Rng::new(rng.next_u64(), "xof"), fixed, seen: vec![] }
    }
}
impl digest::XofReader for Bytes {
    fn read(&mut self, buf: &mut [u8]) {
        use rand_core::RngCore;
        match self.fixed {
            Some(b) => buf.fill(b),
            None => self.rng.fill_bytes(buf),
        }
        self.seen.extend_from_slice(buf);
    }
}

/// Mixed widths: 512-bit secret times 128-bit public, as in the factoring proof.
fn mixed(c: &J) -> J {
    let (a, b) = (c.get("a"), c.get("b"));
    let (ab, bb) = (c.get("ab").i() as u32, c.get("bb").i() as u32);
    outcome(
        || {
            let s: SecretSigned<U512> = ct(SecretSigned::new_from_unsigned(secret(word(a).unwrap()), ab)).unwrap();
            let p: PublicSigned<U128> = PublicSigned::new_from_unsigned(word(b).unwrap(), bb).unwrap();
            Some(s.mul_wide_public::<U128, U640>(&p))
        },
        shows,
        none(),
    )
}

/// Powers in Montgomery form: base^exp mod modulus, exponent signed (secret, public) or unsigned.
fn power<T>(c: &J) -> J
where
    T: N + Extendable<T>,
    T: Integer<Monty: PowBoundedExp<T> + Invert<Output = CtOption<<T as Integer>::Monty>> + ConditionallySelectable + crypto_bigint::modular::Retrieve<Output = T>>,
{
    use crypto_bigint::modular::Retrieve;
    let ab = c.get("ab").i() as u32;
    outcome(
        || {
            let m = Odd::new(nat::<T>(c.get("m")).unwrap()).unwrap();
            let params = <T::Monty as Monty>::new_params_vartime(m);
            let base = nat::<T>(c.get("b").get("mag")).unwrap().to_montgomery(&params);
            let w = word::<T>(c.get("a")).unwrap();
            let r: T::Monty = match c.get("op").s() {
                "pow_s" => Exponentiable::pow(&base, &ct(SecretSigned::new_from_unsigned(secret(w), ab)).unwrap()),
                "pow_p" => Exponentiable::pow(&base, &PublicSigned::new_from_unsigned(w, ab).unwrap()),
                _ => Exponentiable::pow(&base, &ct(SecretUnsigned::new(secret(w), ab)).unwrap()),
            };
            Some(r.retrieve())
        },
        shown,
        none(),
    )
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let mut rng = ctx.rng("uint");
    for c in ctx.plan() {
        let w = c.get("w").i();
        let op = c.get("op").s();
        let res = match (op, w) {
            ("pow_s" | "pow_p" | "pow_u", 128) => power::<U128>(&c),
            ("pow_s" | "pow_p" | "pow_u", 256) => power::<U256>(&c),
            ("sp_mulwide_mixed", _) => mixed(&c),
            ("rand" | "rand_scaled" | "rand_scaled_wide" | "xof_signed", 256) => sampler::<U256, U512, U640>(&c, &mut rng),
            ("rand" | "rand_scaled" | "rand_scaled_wide" | "xof_signed", 2048) => {
                sampler::<U2048, U4096, Uint<{ 5120 / 64 }>>(&c, &mut rng)
            }
            (_, 128) => case::<U128, U256>(&c, &mut rng),
            (_, 256) => case::<U256, U512>(&c, &mut rng),
            (_, 512) => case::<U512, U1024>(&c, &mut rng),
            (_, 2048) => case::<U2048, U4096>(&c, &mut rng),
            _ => panic!("width {w}"),
        };
        let mut ev = c.clone();
        ev.push("res", res);
        out.ev(ev);
    }
    ctx.save(&out);
}
