// The constants of the shipped parameter sets, and what the library's own check says of sets with changed constants.
use super::curve::scj;
use super::paillier::*;
use super::util::*;
use crate::curve::Scalar;
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::paillier::{PaillierParams, SecretKeyPaillierWire};
use crate::params::SchemeParams;
use crate::tools::hashing::Hasher;
use crypto_bigint::{nlimbs, Bounded, Uint};
use elliptic_curve::{CurveArithmetic, PrimeField};
use std::prelude::v1::*;
use std::vec;

/// The group order: one more than the largest scalar.
fn order<P: SchemeParams>() -> J {
    let mut b: Vec<u8> = (-Scalar::<P>::ONE).to_be_bytes().to_vec();
    for x in b.iter_mut().rev() {
        let (y, carry) = x.overflowing_add(1);
        *x = y;
        if !carry {
            break;
        }
    }
    limbs(&b)
}
fn set<P: SchemeParams>(op: &str, name: &str) -> J {
    assert!(scj(&Scalar::<P>::ONE) == J::A(vec![1.into()]));
    let hash = bytes_of(&val(&Hasher::<P::Digest>::new_with_dst(b"").finalize(P::SECURITY_BITS))).map(|b| 8 * b.len()).unwrap_or(0);
    obj! {
        "op" => op, "name" => name, "sb" => P::SECURITY_BITS, "kappa" => P::SECURITY_PARAMETER, "ell" => P::L_BOUND, "ellp" => P::LP_BOUND,
        "eps" => P::EPS_BOUND, "prime" => Pl::<P>::PRIME_BITS, "modulus" => Pl::<P>::MODULUS_BITS, "half" => Half::<P>::BITS, "uint" => Int::<P>::BITS,
        "wide" => Wide::<P>::BITS, "xwide" => XWide::<P>::BITS, "order" => order::<P>(), "hash" => hash, "bits" => <<P as SchemeParams>::Curve as CurveArithmetic>::Scalar::NUM_BITS,
        "ok" => P::SELF_CONSISTENT && Pl::<P>::SELF_CONSISTENT
    }
}
fn keys<P: SchemeParams>(name: &str, out: &mut Out) {
    let sk = SecretKeyPaillierWire::<Pl<P>>::random(&mut Rng::new(3, name)).into_precomputed();
    out.ev(obj! {
        "op" => "key", "name" => name, "prime" => Pl::<P>::PRIME_BITS, "modulus" => Pl::<P>::MODULUS_BITS,
        "n" => nj(sk.public_key().modulus()), "p" => sz(&sk.p_signed()).get("mag").clone(), "q" => sz(&sk.q_signed()).get("mag").clone()
    });
}
macro_rules! pail {
    ($name:ident, $prime:expr, $modulus:expr, $h:expr, $u:expr, $w:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $name;
        impl PaillierParams for $name {
            const PRIME_BITS: u32 = $prime;
            const MODULUS_BITS: u32 = $modulus;
            type HalfUint = Uint<{ nlimbs!($h) }>;
            type Uint = Uint<{ nlimbs!($u) }>;
            type WideUint = Uint<{ nlimbs!($w) }>;
        }
    };
}
macro_rules! vary {
    ($out:ident, $name:expr, $base:ty, $curve:ty, $($paillier:ty, $xw:expr, $sp:expr, $l:expr, $lp:expr, $eps:expr;)*) => {
        $({
            #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
            pub struct V;
            impl SchemeParams for V {
                type Curve = $curve;
                type Digest = sha3::Shake256;
                const SECURITY_BITS: usize = <$base as SchemeParams>::SECURITY_BITS;
                const SECURITY_PARAMETER: usize = $sp;
                const L_BOUND: u32 = $l;
                const LP_BOUND: u32 = $lp;
                const EPS_BOUND: u32 = $eps;
                type Paillier = $paillier;
                type ExtraWideUint = Uint<{ nlimbs!($xw) }>;
            }
            $out.ev(set::<V>("check", $name));
        })*
    };
}
type PT = <TestParams as SchemeParams>::Paillier;
type PP = <ProductionParams112 as SchemeParams>::Paillier;
// sizes of primes, moduli and words
pail!(P127, 127, 254, 128, 256, 512);
pail!(P129, 129, 258, 192, 320, 576);
pail!(P160, 160, 320, 192, 320, 640);
pail!(P192, 192, 384, 192, 384, 768);
pail!(OddModulus, 128, 255, 128, 256, 512);
pail!(LongModulus, 128, 257, 128, 320, 576);
pail!(ShortHalf, 128, 256, 64, 256, 512);
pail!(ShortUint, 128, 256, 128, 192, 512);
pail!(ShortWide, 128, 256, 128, 256, 448);
pail!(P1023, 1023, 2046, 1024, 2048, 4096);

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    out.ev(set::<TestParams>("shipped", "test"));
    out.ev(set::<ProductionParams112>("shipped", "p112"));
    out.ev(set::<ProductionParams128>("shipped", "p128"));
    keys::<TestParams>("test", &mut out);
    keys::<ProductionParams112>("p112", &mut out);
    if ctx.thorough {
        keys::<ProductionParams128>("p128", &mut out);
    }
    // 128-bit primes, 32-bit group: kappa = 32, ell = 32, ell' = 160, eps = 64
    vary!(out, "test", TestParams, tiny_curve::TinyCurve32,
        PT, 640, 32, 32, 160, 64;
        PT, 704, 32, 32, 160, 64;
        PT, 576, 32, 32, 160, 64;
        PT, 512, 32, 32, 160, 64;
        PT, 640, 31, 32, 160, 64;
        PT, 640, 33, 32, 160, 64;
        PT, 640, 31, 31, 160, 66;
        PT, 640, 32, 31, 160, 66;
        PT, 640, 32, 31, 160, 64;
        PT, 640, 32, 33, 160, 62;
        PT, 640, 32, 33, 160, 64;
        PT, 640, 32, 33, 165, 66;
        PT, 640, 32, 32, 159, 64;
        PT, 640, 32, 32, 161, 64;
        PT, 640, 32, 32, 170, 64;
        PT, 640, 32, 32, 171, 64;
        PT, 640, 32, 32, 172, 64;
        PT, 640, 32, 32, 192, 64;
        PT, 640, 32, 32, 160, 63;
        PT, 640, 32, 32, 159, 63;
        PT, 640, 32, 32, 160, 65;
        PT, 640, 32, 32, 161, 65;
        PT, 640, 32, 32, 168, 72;
        PT, 640, 32, 32, 160, 0;
        PT, 640, 32, 0, 160, 64;
        PT, 640, 32, 0, 160, 128;
        P127, 640, 32, 32, 160, 63;
        P127, 640, 32, 32, 159, 63;
        P127, 640, 32, 32, 160, 64;
        P129, 704, 32, 32, 161, 65;
        P129, 640, 32, 32, 161, 65;
        P129, 640, 32, 32, 162, 65;
        P160, 768, 32, 32, 192, 96;
        P160, 832, 32, 32, 192, 96;
        P160, 704, 32, 32, 192, 96;
        P192, 1024, 32, 32, 224, 128;
        P192, 960, 32, 32, 224, 128;
        P192, 896, 32, 32, 224, 128;
        OddModulus, 640, 32, 32, 160, 64;
        LongModulus, 704, 32, 32, 160, 64;
        ShortHalf, 640, 32, 32, 160, 64;
        ShortUint, 640, 32, 32, 160, 64;
        ShortWide, 640, 32, 32, 160, 64;
    );
    // 1024-bit primes, 256-bit group
    vary!(out, "p112", ProductionParams112, k256::Secp256k1,
        PP, 5120, 256, 256, 1280, 512;
        PP, 4608, 256, 256, 1280, 512;
        PP, 4864, 256, 256, 1280, 512;
        PP, 4928, 256, 256, 1280, 512;
        PP, 5120, 255, 256, 1280, 512;
        PP, 5120, 257, 256, 1280, 512;
        PP, 5120, 128, 128, 1280, 768;
        PP, 5120, 256, 255, 1280, 514;
        PP, 5120, 256, 257, 1281, 510;
        PP, 5120, 256, 256, 1279, 512;
        PP, 5120, 256, 256, 1281, 512;
        PP, 5120, 256, 256, 1279, 511;
        PP, 5120, 256, 256, 1280, 511;
        PP, 5120, 256, 256, 1281, 513;
        PP, 5120, 256, 256, 1515, 512;
        PP, 5120, 256, 256, 1516, 512;
        P1023, 5120, 256, 256, 1280, 511;
        P1023, 5120, 256, 256, 1279, 511;
        PT, 640, 256, 256, 1280, 512;
        PT, 640, 32, 32, 160, 64;
    );
    ctx.save(&out);
}
