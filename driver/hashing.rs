// Transcripts: what the hash is fed, and what is drawn from its output.
use super::curve::{scalar, scj};
use super::probe::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::paillier::PaillierParams;
use crate::params::{chain_scheme_params, SchemeParams};
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, Hasher};
use crate::uint::{FromXofReader, PublicUint};
use crypto_bigint::{nlimbs, Uint, U256};
use std::prelude::v1::*;
use std::{collections::BTreeMap, vec};

fn runs(j: &J) -> Vec<u8> {
    j.a().iter().flat_map(|r| vec![r.a()[0].i() as u8; r.a()[1].i() as usize]).collect()
}
fn bits(j: &J) -> Vec<bool> {
    j.a().iter().map(|b| b.b()).collect()
}
/// Bit vectors can only be made from streams.
fn bitvec(b: &[bool]) -> BitVec {
    let mut s = vec![0u8; b.len().div_ceil(8)];
    for (k, x) in b.iter().enumerate() {
        s[k / 8] |= (*x as u8) << (7 - k % 8);
    }
    let v = BitVec::from_xof_reader(&mut Stream::new(s), b.len());
    assert!(v.bits() == b, "driver: bit vector");
    v
}
fn hash_output(b: Vec<u8>) -> crate::tools::hashing::HashOutput {
    let (r, _) = with_oracle(Oracle::Fixed(b.clone()), || Hasher::<Probe>::new_with_dst(b"").finalize(b.len() * 4));
    r
}
fn signed(x: &J) -> PublicSigned<U256> {
    PublicSigned::new_from_unsigned(word::<U256>(x.get("v")).expect("plan"), x.get("b").i() as u32).expect("plan")
}
fn sc<P: SchemeParams>(x: &J) -> Scalar<P> {
    scalar::<P>(x.get("v").get("mag"))
}
fn pt<P: SchemeParams>(x: &J) -> Point<P> {
    sc::<P>(x).mul_by_generator()
}
fn puint(x: &J) -> PublicUint<U256> {
    nat::<U256>(x.get("v").get("mag")).expect("plan").into()
}
fn item<P: SchemeParams, H: Chain>(h: H, x: &J) -> H {
    macro_rules! all {
        ($f:expr) => {
            x.get("list").a().iter().map($f).collect::<Vec<_>>()
        };
    }
    macro_rules! opt {
        ($f:expr) => {
            h.chain(&x.get("list").a().first().map($f))
        };
    }
    match x.get("t").s() {
        "signed" => h.chain(&signed(x)),
        "bits" => h.chain(&bitvec(&bits(x.get("bits")))),
        "hash" => h.chain(&hash_output(runs(x.get("runs")))),
        "scalar" => h.chain(&sc::<P>(x)),
        "point" => h.chain(&pt::<P>(x)),
        "uint" => h.chain(&puint(x)),
        "list-signed" => h.chain(&all!(signed)),
        "list-bits" => h.chain(&all!(|y| bitvec(&bits(y.get("bits"))))),
        "list-scalar" => h.chain(&all!(|y| sc::<P>(y)).into_boxed_slice()),
        "list-point" => h.chain(&all!(|y| pt::<P>(y)).into_boxed_slice()),
        "list-uint" => h.chain(&all!(puint)),
        "opt-signed" => opt!(signed),
        "opt-bits" => opt!(|y| bitvec(&bits(y.get("bits")))),
        "opt-hash" => opt!(|y| hash_output(runs(y.get("runs")))),
        "opt-scalar" => opt!(|y| sc::<P>(y)),
        "opt-point" => opt!(|y| pt::<P>(y)),
        "opt-uint" => opt!(puint),
        "map" => h.chain(&x.get("list").a().iter().enumerate().map(|(k, y)| (k as u8, sc::<P>(y))).collect::<BTreeMap<_, _>>()),
        t => panic!("plan: type {t}"),
    }
}
fn typed(c: &J, h: Hasher<Probe>) -> Hasher<Probe> {
    let test = c.get("group").s().starts_with("test");
    c.get("items").a().iter().fold(h, |h, x| if test { item::<TestParams, _>(h, x) } else { item::<ProductionParams112, _>(h, x) })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct OddPaillier;
impl PaillierParams for OddPaillier {
    const PRIME_BITS: u32 = 127;
    type HalfUint = Uint<{ nlimbs!(128) }>;
    type Uint = Uint<{ nlimbs!(256) }>;
    type WideUint = Uint<{ nlimbs!(512) }>;
}
type Base = TestParams;
macro_rules! variant {
    ($name:ident, $curve:ty, $paillier:ty, $sb:expr, $sp:expr, $l:expr, $lp:expr, $eps:expr) => {
        #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $name;
        impl SchemeParams for $name {
            type Curve = $curve;
            type Digest = Probe;
            const SECURITY_BITS: usize = $sb;
            const SECURITY_PARAMETER: usize = $sp;
            const L_BOUND: u32 = $l;
            const LP_BOUND: u32 = $lp;
            const EPS_BOUND: u32 = $eps;
            type Paillier = $paillier;
            type ExtraWideUint = Uint<{ nlimbs!(640) }>;
        }
    };
}
const SB: usize = <Base as SchemeParams>::SECURITY_BITS;
const SP: usize = <Base as SchemeParams>::SECURITY_PARAMETER;
const L: u32 = <Base as SchemeParams>::L_BOUND;
const LP: u32 = <Base as SchemeParams>::LP_BOUND;
const EPS: u32 = <Base as SchemeParams>::EPS_BOUND;
type Tiny = <Base as SchemeParams>::Curve;
type PT = <Base as SchemeParams>::Paillier;
variant!(V1, Tiny, OddPaillier, SB, SP, L, LP, EPS);
variant!(V2, Tiny, PT, SB + 1, SP, L, LP, EPS);
variant!(V3, Tiny, PT, SB, SP + 1, L, LP, EPS);
variant!(V4, Tiny, PT, SB, SP, L + 1, LP, EPS);
variant!(V5, Tiny, PT, SB, SP, L, LP + 1, EPS);
variant!(V6, Tiny, PT, SB, SP, L, LP, EPS + 1);
variant!(V7, k256::Secp256k1, PT, SB, SP, L, LP, EPS);

fn params(name: &str, h: Hasher<Probe>) -> Hasher<Probe> {
    match name {
        "test" => chain_scheme_params::<TestParams, _>(h),
        "p112" => chain_scheme_params::<ProductionParams112, _>(h),
        "p128" => chain_scheme_params::<ProductionParams128, _>(h),
        "prime_bits" => chain_scheme_params::<V1, _>(h),
        "security_bits" => chain_scheme_params::<V2, _>(h),
        "security_parameter" => chain_scheme_params::<V3, _>(h),
        "l" => chain_scheme_params::<V4, _>(h),
        "lp" => chain_scheme_params::<V5, _>(h),
        "eps" => chain_scheme_params::<V6, _>(h),
        "curve" => chain_scheme_params::<V7, _>(h),
        _ => panic!("plan: {name}"),
    }
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let mut rng = ctx.rng("hashing");
    let mut known: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for c in ctx.plan() {
        let mut ev = c.clone();
        let mut id = |f: &dyn Fn() -> Hasher<Probe>| -> J {
            let mut ask = || match guarded(|| with_oracle(Oracle::Real, || drop(f().finalize_to_reader())).1.pop().unwrap()) {
                Ok(x) => {
                    let n = known.len();
                    J::from(*known.entry(x).or_insert(n))
                }
                Err(_) => J::from(-1),
            };
            J::A(vec![ask(), ask()])
        };
        let stream = |c: &J| Stream::new(c.get("stream").a().iter().map(|x| x.i() as u8).collect());
        let n = || c.get("n").i();
        let (ids, r, used) = match c.get("op").s() {
            "raw" => {
                let dst = runs(c.get("dst"));
                let items: Vec<Vec<u8>> = c.get("items").a().iter().map(runs).collect();
                (id(&|| items.iter().fold(Hasher::<Probe>::new_with_dst(&dst), |h, x| h.chain_bytes(x))), None, 0)
            }
            "typed" => (id(&|| typed(&c, Hasher::<Probe>::new_with_dst(b"T"))), None, 0),
            "params" => (id(&|| params(c.get("name").s(), Hasher::<Probe>::new_with_dst(b"T"))), None, 0),
            "d_uint" => {
                let mut s = stream(&c);
                let r = outcome(|| Some(U256::from_xof_reader(&mut s, n() as u32)), |x| nj(&x), J::A(vec![]));
                (J::A(vec![]), Some(r), s.pos)
            }
            "d_signed" => {
                let mut s = stream(&c);
                let r = outcome(|| Some(PublicSigned::<U256>::from_xof_reader_in_exponent_range(&mut s, n() as u32)), |x| pz(&x), z0());
                (J::A(vec![]), Some(r), s.pos)
            }
            "d_bits" => {
                let mut s = stream(&c);
                let r = outcome(|| Some(BitVec::from_xof_reader(&mut s, n() as usize)), |x| J::from(x.bits().to_vec()), J::A(vec![]));
                (J::A(vec![]), Some(r), s.pos)
            }
            "d_hash" => {
                let s = stream(&c).data;
                let f = || with_oracle(Oracle::Fixed(s), || Hasher::<Probe>::new_with_dst(b"T").finalize(n() as usize)).0;
                let r = outcome(|| Some(f()), |x| J::from(super::paillier::bytes_of(&to_value(&x, false).unwrap()).expect("no bytes").clone()), J::A(vec![]));
                (J::A(vec![]), Some(r), 0)
            }
            "d_scalar_test" => {
                let mut s = stream(&c);
                (J::A(vec![]), Some(outcome(|| Some(Scalar::<TestParams>::from_xof_reader(&mut s)), |x| scj(&x), J::A(vec![]))), s.pos)
            }
            "d_scalar_p112" => {
                let mut s = stream(&c);
                (J::A(vec![]), Some(outcome(|| Some(Scalar::<ProductionParams112>::from_xof_reader(&mut s)), |x| scj(&x), J::A(vec![]))), s.pos)
            }
            "xor" => {
                let f = || {
                    let mut a = bitvec(&bits(c.get("a")));
                    a ^= &bitvec(&bits(c.get("b")));
                    a
                };
                (J::A(vec![]), Some(outcome(|| Some(f()), |x| J::from(x.bits().to_vec()), J::A(vec![]))), 0)
            }
            "rbits" => {
                let v: Vec<Vec<bool>> = (0..96).map(|_| BitVec::random(&mut rng, n() as usize).bits().to_vec()).collect();
                ev.push("samples", J::A(v.into_iter().map(J::from).collect()));
                (J::A(vec![]), None, 0)
            }
            op => panic!("plan: {op}"),
        };
        if let [a, b] = ids.a() {
            ev.push("id", a.clone());
            ev.push("again", b.clone());
            ev.push("some", *a != J::from(-1));
        }
        if let Some(r) = r {
            ev.push("r", r);
            ev.push("used", used);
        }
        out.ev(ev);
    }
    ctx.save(&out);
}
