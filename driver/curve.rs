use super::uint::Bytes;
use super::util::*;
use crate::curve::{secret_split, Point, RecoverableSignature, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::{
    public_signed_from_scalar, scalar_from_signed, scalar_from_wide_signed, secret_scalar_from_signed,
    secret_scalar_from_wide_signed, secret_signed_from_scalar, SchemeParams,
};
use crate::paillier::PaillierParams;
use crypto_bigint::Bounded;
use elliptic_curve::group::Curve as _;
use elliptic_curve::sec1::ToEncodedPoint;
use std::prelude::v1::*;
use std::{format, vec};

pub(crate) fn scalar<P: SchemeParams>(j: &J) -> Scalar<P> {
    let b = from_limbs(j, Scalar::<P>::repr_len()).expect("plan: scalar too large");
    Scalar::try_from_be_bytes(&b).expect("a residue was refused as a scalar")
}
pub(crate) fn scj<P: SchemeParams>(s: &Scalar<P>) -> J {
    limbs(s.to_be_bytes().as_ref())
}
pub(crate) fn ptj<P: SchemeParams>(p: &Point<P>) -> J {
    let ep = p.to_backend().to_affine().to_encoded_point(false);
    match (ep.x(), ep.y()) {
        (Some(x), Some(y)) => obj! {"inf" => false, "x" => limbs(x), "y" => limbs(y)},
        _ => obj! {"inf" => true, "x" => J::A(vec![]), "y" => J::A(vec![])},
    }
}
fn e() -> J {
    J::A(vec![])
}
fn inf() -> J {
    obj! {"inf" => true, "x" => e(), "y" => e()}
}
type Int<P> = <<P as SchemeParams>::Paillier as PaillierParams>::Uint;
type Wide<P> = <<P as SchemeParams>::Paillier as PaillierParams>::WideUint;

/// Operands: `a`, `b`, `c` naturals (scalars unless said otherwise), `s` a sequence of scalars.
fn case<P: SchemeParams>(c: &J, rng: &mut Rng) -> J {
    let a = || scalar::<P>(c.get("a"));
    let b = || scalar::<P>(c.get("b"));
    let seq = || c.get("s").a().iter().map(|x| scalar::<P>(x)).collect::<Vec<_>>();
    let pt = |s: Scalar<P>| s.mul_by_generator();
    let sc = |f: &dyn Fn() -> Option<Scalar<P>>| outcome(|| f(), |x| scj(&x), e());
    let ss = |f: &dyn Fn() -> Secret<Scalar<P>>| outcome(|| Some(f()), |x| scj(x.expose_secret()), e());
    let pp = |f: &dyn Fn() -> Point<P>| outcome(|| Some(f()), |x| ptj(&x), inf());
    match c.get("op").s() {
        "s_add" => sc(&|| Some(a() + b())),
        "s_addref" => sc(&|| Some(&a() + &b())),
        "s_addas" => sc(&|| {
            let mut x = a();
            x += &b();
            Some(x)
        }),
        "s_sub" => sc(&|| Some(a() - b())),
        "s_subas" => sc(&|| {
            let mut x = a();
            x -= &b();
            Some(x)
        }),
        "s_neg" => sc(&|| Some(-a())),
        "s_mul" => sc(&|| Some(a() * b())),
        "s_mulref" => sc(&|| Some(a() * &b())),
        "s_mulas" => sc(&|| {
            let mut x = a();
            x *= &b();
            Some(x)
        }),
        "s_inv" => sc(&|| a().invert().into()),
        "s_sum" => sc(&|| Some(seq().into_iter().sum())),
        "s_sumref" => sc(&|| Some(seq().iter().sum())),
        "s_prod" => sc(&|| Some(seq().into_iter().product())),
        "s_u64" => sc(&|| {
            let be = from_limbs(c.get("a"), 8).unwrap();
            Some(Scalar::from(u64::from_be_bytes(be.try_into().unwrap())))
        }),
        // `e`: number of bytes to encode `a` in
        "s_bytes" => sc(&|| {
            let be = from_limbs(c.get("a"), c.get("e").i() as usize).unwrap();
            Scalar::try_from_be_bytes(&be).ok()
        }),
        "s_back" => sc(&|| Scalar::try_from_be_bytes(&a().to_be_bytes()).ok()),
        "s_reduce" => sc(&|| {
            let be = from_limbs(c.get("a"), Scalar::<P>::repr_len()).unwrap();
            Some(Scalar::from_reduced_bytes(&be))
        }),
        // secret scalars
        "x_neg" => ss(&|| -&secret(a())),
        "x_add1" => ss(&|| secret(a()) + &b()),
        "x_add2" => ss(&|| &secret(a()) + &b()),
        "x_add3" => ss(&|| secret(a()) + secret(b())),
        "x_add4" => ss(&|| secret(a()) + &secret(b())),
        "x_add5" => ss(&|| &secret(a()) + secret(b())),
        "x_add6" => ss(&|| &secret(a()) + &secret(b())),
        "x_addas1" => ss(&|| {
            let mut x = secret(a());
            x += &b();
            x
        }),
        "x_addas2" => ss(&|| {
            let mut x = secret(a());
            x += secret(b());
            x
        }),
        "x_sub1" => ss(&|| secret(a()) - &b()),
        "x_sub2" => ss(&|| secret(a()) - secret(b())),
        "x_mul1" => ss(&|| secret(a()) * &b()),
        "x_mul2" => ss(&|| &secret(a()) * &b()),
        "x_mul3" => ss(&|| &secret(a()) * b()),
        "x_mul4" => ss(&|| secret(a()) * b()),
        "x_mul5" => ss(&|| secret(a()) * secret(b())),
        "x_mul6" => ss(&|| secret(a()) * &secret(b())),
        "x_mul7" => ss(&|| &secret(a()) * &secret(b())),
        "x_sum" => ss(&|| seq().into_iter().map(secret).sum()),
        "x_sumref" => ss(&|| {
            let v: Vec<Secret<Scalar<P>>> = seq().into_iter().map(secret).collect();
            v.iter().sum()
        }),
        // points: A = a*G, B = b*G
        "p_gen" => pp(&|| Point::generator()),
        "p_id" => pp(&|| Point::identity()),
        "p_base" => pp(&|| a().mul_by_generator()),
        "p_xbase" => pp(&|| secret(a()).mul_by_generator()),
        "p_add" => pp(&|| pt(a()) + pt(b())),
        "p_mul1" => pp(&|| pt(a()) * b()),
        "p_mul2" => pp(&|| pt(a()) * &b()),
        "p_mul3" => pp(&|| &pt(a()) * &b()),
        "p_mul4" => pp(&|| &pt(a()) * b()),
        "p_mul5" => pp(&|| pt(a()) * secret(b())),
        "p_mul6" => pp(&|| pt(a()) * &secret(b())),
        "p_mul7" => pp(&|| &pt(a()) * secret(b())),
        "p_mul8" => pp(&|| &pt(a()) * &secret(b())),
        "p_sum" => pp(&|| seq().into_iter().map(pt).sum()),
        "p_sumref" => pp(&|| {
            let v: Vec<Point<P>> = seq().into_iter().map(pt).collect();
            v.iter().sum()
        }),
        "p_x" => sc(&|| Some(pt(a()).x_coordinate())),
        "p_eq" => outcome(|| Some(pt(a()) == pt(b())), |x| x.into(), false.into()),
        "p_key" => outcome(
            || pt(a()).to_verifying_key(),
            |k| ptj(&Point::<P>::from_verifying_key(&k)),
            inf(),
        ),
        // `e`: number of parts
        "split" => outcome(
            || Some(secret_split::<P>(rng, secret(a()), c.get("e").i() as usize)),
            |v| v.iter().map(|x| scj(x.expose_secret())).collect::<Vec<_>>().into(),
            e(),
        ),
        "random" => sc(&|| Some(Scalar::random(&mut rng.clone()))),
        "random_nz" => sc(&|| Some(Scalar::random_nonzero(&mut rng.clone()))),
        // conversions; `z` is a signed integer, `e` its bound
        "c_pub" => outcome(
            || Some(public_signed_from_scalar::<P>(&a())),
            |x| obj! {"v" => pz(&x), "b" => x.bound()},
            obj! {"v" => z0(), "b" => 0},
        ),
        "c_sec" => outcome(
            || Some(secret_signed_from_scalar::<P>(&secret(a()))),
            |x| obj! {"v" => sz(&x), "b" => x.bound()},
            obj! {"v" => z0(), "b" => 0},
        ),
        "c_from" => sc(&|| {
            Some(scalar_from_signed::<P>(
                &PublicSigned::<Int<P>>::new_from_unsigned(word(c.get("z")).unwrap(), c.get("e").i() as u32).unwrap(),
            ))
        }),
        "c_fromw" => sc(&|| {
            Some(scalar_from_wide_signed::<P>(
                &PublicSigned::<Wide<P>>::new_from_unsigned(word(c.get("z")).unwrap(), c.get("e").i() as u32).unwrap(),
            ))
        }),
        "c_sfrom" => ss(&|| {
            secret_scalar_from_signed::<P>(
                &SecretSigned::<Int<P>>::new_from_unsigned(secret(word(c.get("z")).unwrap()), c.get("e").i() as u32)
                    .unwrap(),
            )
        }),
        "c_sfromw" => ss(&|| {
            secret_scalar_from_wide_signed::<P>(
                &SecretSigned::<Wide<P>>::new_from_unsigned(secret(word(c.get("z")).unwrap()), c.get("e").i() as u32)
                    .unwrap(),
            )
        }),
        "c_round" => sc(&|| Some(scalar_from_signed::<P>(&secret_signed_from_scalar::<P>(&secret(a())).to_public()))),
        "c_roundp" => sc(&|| Some(scalar_from_signed::<P>(&public_signed_from_scalar::<P>(&a())))),
        "c_rounds" => ss(&|| secret_scalar_from_signed::<P>(&secret_signed_from_scalar::<P>(&secret(a())))),
        op => panic!("unknown operation {op}"),
    }
}

/// Signature assembly. Fields: key `x`, message `m`, and either nonce `k` or `r`, `s` directly.
fn signature<P: SchemeParams>(r: Scalar<P>, s: Scalar<P>, vkey: Point<P>, m: Scalar<P>) -> J {
    outcome(
        || RecoverableSignature::<P>::from_scalars(r, s, vkey, m),
        |sig| {
            let (sig, id) = sig.to_backend();
            let (r, s) = sig.split_scalars();
            obj! {"r" => scj(&Scalar::<P>::from(&r)), "s" => scj(&Scalar::<P>::from(&s)), "rec" => id.to_byte() as u32}
        },
        obj! {"r" => e(), "s" => e(), "rec" => 9},
    )
}

fn sig_case<P: SchemeParams>(params: &str, c: &J, out: &mut Out) {
    let (x, k, m) = (scalar::<P>(c.get("a")), scalar::<P>(c.get("b")), scalar::<P>(c.get("m")));
    sig_with::<P>(params, x, k, m, c.get("tweak").s(), out)
}

fn sig_with<P: SchemeParams>(params: &str, x: Scalar<P>, k: Scalar<P>, m: Scalar<P>, tweak: &str, out: &mut Out) {
    let r = k.mul_by_generator().x_coordinate();
    let s = k.invert().unwrap() * (m + r * x);
    let vk = x.mul_by_generator();
    let one = Scalar::<P>::ONE;
    let (r, s, vk, m) = match tweak {
        "none" => (r, s, vk, m),
        "neg_s" => (r, -s, vk, m),
        "r+1" => (r + one, s, vk, m),
        "s+1" => (r, s + one, vk, m),
        "m+1" => (r, s, vk, m + one),
        "neg_m" => (r, s, vk, -m),
        "key" => (r, s, vk + Point::generator(), m),
        "neg_key" => (r, s, (-x).mul_by_generator(), m),
        "r0" => (Scalar::ZERO, s, vk, m),
        "s0" => (r, Scalar::ZERO, vk, m),
        "keyinf" => (r, s, Point::identity(), m),
        "swap" => (s, r, vk, m),
        t => panic!("tweak {t}"),
    };
    let res = signature::<P>(r, s, vk, m);
    out.ev(obj! {"op" => "sig", "params" => params, "tweak" => tweak, "key" => format!("sig:{tweak}"),
        "r" => scj(&r), "sg" => scj(&s), "vk" => ptj(&vk), "m" => scj(&m), "res" => res});
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let mut rng = ctx.rng("curve");
    for c in ctx.plan() {
        let params = c.get("params").s().to_string();
        if c.get("op").s() == "sig" {
            match params.as_str() {
                "test" => sig_case::<TestParams>("test", &c, &mut out),
                _ => sig_case::<ProductionParams112>("p112", &c, &mut out),
            }
            continue;
        }
        let res = match params.as_str() {
            "test" => case::<TestParams>(&c, &mut rng),
            _ => case::<ProductionParams112>(&c, &mut rng),
        };
        let mut ev = c.clone();
        ev.push("res", res);
        out.ev(ev);
    }
    // nonces whose point has an x-coordinate above the group order (about one in 70000 on the small curve)
    if ctx.get("xred") != "" {
        let want = ctx.num("xred", 2);
        let g = Point::<TestParams>::generator();
        let mut k = Scalar::<TestParams>::random(&mut rng);
        let mut found = 0;
        let mut q = k.mul_by_generator();
        let one = Scalar::<TestParams>::ONE;
        for _ in 0..2_000_000u32 {
            k = k + one;
            q = q + g;
            let ep = q.to_backend().to_affine().to_encoded_point(false);
            let xb = ep.x().unwrap();
            let x = xb.iter().fold(0u64, |a, b| (a << 8) | *b as u64);
            if x >= 0xffff0f07 {
                for tweak in ["none", "neg_s", "s+1"] {
                    let m = Scalar::<TestParams>::random(&mut rng);
                    let sk = Scalar::<TestParams>::random(&mut rng);
                    sig_with::<TestParams>("test", sk, k, m, tweak, &mut out);
                    if let Some(J::O(v)) = out.0.last_mut() {
                        v.push(("xred".to_string(), true.into()));
                    }
                }
                found += 1;
                if found >= want {
                    break;
                }
            }
        }
        out.ev(obj! {"op" => "xred", "key" => "xred", "found" => found});
    }
    ctx.save(&out);
}
