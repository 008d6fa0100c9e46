// Honestly made proofs for given witnesses: do they verify, and what masks do their responses show?
use super::curve::{scalar, scj};
use super::paillier::*;
use super::probe::*;
use super::util::*;
use super::zk::*;
use crate::curve::{Point, Scalar};
use crate::paillier::{Ciphertext, RPParams, RPSecret, SecretKeyPaillier};
use crate::params::{secret_scalar_from_signed, SchemeParams};
use crate::zk::*;
use std::prelude::v1::*;
use std::{collections::BTreeMap, format, vec};

type Keys<P> = BTreeMap<String, SecretKeyPaillier<Pl<P>>>;

fn key_of<P: SchemeParams>(keys: &mut Keys<P>, p: &J, q: &J) -> SecretKeyPaillier<Pl<P>> {
    keys.entry(format!("{p:?}{q:?}")).or_insert_with(|| key::<P>(p, q)).clone()
}
fn zval<T: crypto_bigint::Integer + crypto_bigint::Bounded + BoxedEncoding>(v: &Value, hr: bool) -> J
where
    PublicSigned<T>: for<'de> serde::Deserialize<'de>,
{
    pz(&from_value::<PublicSigned<T>>(v, hr).expect("response"))
}

/// Runs the prover (twice or thrice with the same randomness and different oracles) and the verifier.
fn attempt<P: SchemeParams>(c: &J, keys: &mut Keys<P>) -> J {
    let op = c.get("op").s();
    let w = c.get("w");
    let sk0 = key_of::<P>(keys, c.get("p0"), c.get("q0"));
    let sk1 = key_of::<P>(keys, c.get("p1"), c.get("q1"));
    let (pk0, pk1) = (sk0.public_key(), sk1.public_key());
    let mut rng = Rng::new(c.get("id").i() as u64, "statement");
    let setup = rp::<P>(c.get("hn"), c.get("ht"), c.get("hs"));
    let period = <Int<P> as crypto_bigint::Bounded>::BYTES;
    let bits = <Int<P> as crypto_bigint::Bounded>::BITS;
    // with the bounds the protocols give to such values
    let y_bound = match op {
        "dec" => P::LP_BOUND + P::EPS_BOUND + 1 + (w.get("parties").i() as usize - 1).ilog2() + 1,
        _ => P::LP_BOUND,
    };
    let z = |k: &str| {
        ssg::<Int<P>>(w.get(k), match k {
            "x" => P::L_BOUND,
            "y" => y_bound,
            _ => bits - 1,
        })
    };
    let s = |k: &str| scalar::<P>(w.get(k));
    let g = |k: &str| s(k).mul_by_generator();
    let rnd0 = |k: &str| randomizer::<P>(&sk0, w.get(k));
    let rnd1 = |k: &str| randomizer::<P>(&sk1, w.get(k));
    let aux_owned: Vec<u8> = c.get("aux").a().iter().map(|b| b.i() as u8).collect();
    let aux: &[u8] = &aux_owned;

    macro_rules! run {
        ($t:ident, $new:expr, |$pr:ident| $verify:expr, |$v:ident| $resp:expr) => {{
            let proof: $t<P> = with_oracle(Oracle::Real, || $new(&mut Rng::new(c.get("id").i() as u64, "prover"))).0;
            let $pr = &proof;
            let accept = $verify;
            let mut via = [false, false];
            for hr in [false, true] {
                let wire = to_value(&proof, hr).expect("serialize");
                via[hr as usize] = match from_value::<$t<P>>(&wire, hr) {
                    Ok(p) => {
                        let $pr = &p;
                        let same = to_value(&p, hr).expect("serialize") == wire;
                        same && $verify
                    }
                    Err(_) => false,
                };
            }
            let mut ts: Vec<J> = vec![];
            if c.get("hide").b() {
                for id in [2, 3] {
                    let p: $t<P> =
                        with_oracle(Oracle::Fixed(stream(id, period)), || $new(&mut Rng::new(c.get("id").i() as u64, "prover"))).0;
                    let $v = val(&p);
                    ts.push($resp);
                }
            }
            obj! {"accept" => accept, "bin" => via[0], "hr" => via[1], "t" => J::A(ts)}
        }};
    }
    let sc = |v: &Value, n: &str, k: usize| scj(&from_value::<Scalar<P>>(fld(v, n, k), false).expect("scalar"));
    let zi = |v: &Value, n: &str, k: usize| zval::<Int<P>>(fld(v, n, k), false);
    let zw = |v: &Value, n: &str, k: usize| zval::<Wide<P>>(fld(v, n, k), false);
    let nn = |v: &Value, n: &str, k: usize| num(fld(v, n, k));

    match op {
        "encelg" => {
            let (x, b, rho) = (z("x"), secret(s("b")), rnd0("rho"));
            let cap_c = Ciphertext::new_with_randomizer(pk0, &x, &rho);
            let (cap_a, cap_b) = (g("a"), g("b"));
            let cap_x = cap_a * s("b") + secret_scalar_from_signed::<P>(&x).mul_by_generator();
            let public = || EncElgPublicInputs { pk0, cap_c: &cap_c, cap_a: &cap_a, cap_b: &cap_b, cap_x: &cap_x };
            run!(
                EncElgProof,
                |rng: &mut Rng| EncElgProof::<P>::new(rng, EncElgSecretInputs { x: &x, rho: &rho, b: &b }, public(), &setup, &aux),
                |p| p.verify(public(), &setup, &aux),
                |v| obj! {"e" => sc(&v, "e", 0), "z1" => zi(&v, "z1", 6), "w" => sc(&v, "w", 7), "z2" => nn(&v, "z2", 8), "z3" => zw(&v, "z3", 9)}
            )
        }
        "affg" | "affgstar" => {
            let (x, y, rho, rho_y) = (z("x"), z("y"), rnd0("rho"), rnd1("rhoy"));
            let cap_c = Ciphertext::new_with_randomizer(pk0, &z("c"), &rnd0("rhoc"));
            let cap_d = &cap_c * &x + Ciphertext::new_with_randomizer(pk0, &-&y, &rho);
            let cap_y = Ciphertext::new_with_randomizer(pk1, &y, &rho_y);
            let cap_x = secret_scalar_from_signed::<P>(&x).mul_by_generator();
            if op == "affg" {
                let public = || AffGPublicInputs { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
                run!(
                    AffGProof,
                    |rng: &mut Rng| AffGProof::<P>::new(
                        rng,
                        AffGSecretInputs { x: &x, y: &y, rho: &rho, rho_y: &rho_y },
                        public(),
                        &setup,
                        &aux
                    ),
                    |p| p.verify(public(), &setup, &aux),
                    |v| obj! {"e" => sc(&v, "e", 0), "z1" => zi(&v, "z1", 8), "z2" => zi(&v, "z2", 9), "z3" => zw(&v, "z3", 10),
                              "z4" => zw(&v, "z4", 11), "w" => nn(&v, "w", 12), "wy" => nn(&v, "w_y", 13)}
                )
            } else {
                let public = || AffGStarPublicInputs { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
                run!(
                    AffGStarProof,
                    |rng: &mut Rng| AffGStarProof::<P>::new(rng, AffGStarSecretInputs { x: &x, y: &y, rho: &rho, mu: &rho_y }, public(), &aux),
                    |p| p.verify(public(), &aux),
                    |v| {
                        let l: Vec<J> = fld(&v, "elements", 2).children().iter().map(|(_, k)| {
                            obj! {"z" => zi(k, "z", 0), "zp" => zi(k, "z_prime", 1), "w" => nn(k, "w", 2), "l" => nn(k, "lambda", 3)}
                        }).collect();
                        obj! {"e" => bit_list(fld(&v, "e", 0)), "z" => J::A(l)}
                    }
                )
            }
        }
        "dec" => {
            let (x, y, rho) = (z("x"), z("y"), rnd0("rho"));
            let cap_k = Ciphertext::new_with_randomizer(pk0, &z("c"), &rnd0("rhoc"));
            let cap_d = Ciphertext::new_with_randomizer(pk0, &y, &rho) + &cap_k * &-&x;
            let cap_x = secret_scalar_from_signed::<P>(&x).mul_by_generator();
            let cap_g = g("a");
            let cap_s = cap_g * secret_scalar_from_signed::<P>(&y);
            let public = || DecPublicInputs {
                pk0,
                cap_k: &cap_k,
                cap_x: &cap_x,
                cap_d: &cap_d,
                cap_s: &cap_s,
                cap_g: &cap_g,
                num_parties: w.get("parties").i() as usize,
            };
            run!(
                DecProof,
                |rng: &mut Rng| DecProof::<P>::new(rng, DecSecretInputs { x: &x, y: &y, rho: &rho }, public(), &setup, &aux),
                |p| p.verify(public(), &setup, &aux),
                |v| {
                    let l: Vec<J> = fld(&v, "elements", 2).children().iter().map(|(_, k)| {
                        obj! {"z" => zi(k, "z", 0), "w" => zw(k, "w", 1), "nu" => nn(k, "nu", 2)}
                    }).collect();
                    obj! {"e" => bit_list(fld(&v, "e", 0)), "z" => J::A(l)}
                }
            )
        }
        "fac" => run!(
            FacProof,
            |rng: &mut Rng| FacProof::<P>::new(rng, &sk0, &setup, &aux),
            |p| p.verify(pk0, &setup, &aux),
            |v| obj! {"e" => zi(&v, "e", 0), "z1" => zw(&v, "z1", 6), "z2" => zw(&v, "z2", 7), "w1" => zw(&v, "w1", 8), "w2" => zw(&v, "w2", 9),
                      "v" => zval::<XWide<P>>(fld(&v, "v", 10), false)}
        ),
        "elog" => {
            let (y, lambda) = (s("x"), s("b"));
            let (cap_x, h) = (g("a"), g("g"));
            let (cap_l, cap_m, cap_y) = (lambda.mul_by_generator(), y.mul_by_generator() + cap_x * lambda, h * y);
            let public = || ElogPublicInputs { cap_l: &cap_l, cap_m: &cap_m, cap_x: &cap_x, cap_y: &cap_y, h: &h };
            run!(
                ElogProof,
                |rng: &mut Rng| ElogProof::<P>::new(rng, ElogSecretInputs { y: &secret(y), lambda: &secret(lambda) }, public(), &aux),
                |p| p.verify(public(), &aux),
                |v| obj! {"e" => sc(&v, "e", 0), "z" => sc(&v, "z", 4), "u" => sc(&v, "u", 5)}
            )
        }
        "sch" => {
            let x = s("x");
            let cap_x = x.mul_by_generator();
            let commitment = |rng: &mut Rng| {
                let alpha = SchSecret::<P>::random(rng);
                let k = SchCommitment::new(&alpha);
                (alpha, k)
            };
            let k = commitment(&mut Rng::new(c.get("id").i() as u64, "prover")).1;
            run!(
                SchProof,
                |rng: &mut Rng| {
                    let (alpha, k) = commitment(rng);
                    SchProof::<P>::new(&alpha, &secret(x), &k, &cap_x, &aux)
                },
                |p| p.verify(&k, &cap_x, &aux),
                |v| obj! {"e" => sc(&v, "challenge", 0), "p" => sc(&v, "proof", 1)}
            )
        }
        "prm" => {
            let secret = RPSecret::<Pl<P>>::random(&mut rng);
            let setup = RPParams::random_with_secret(&mut rng, &secret);
            let mut r = run!(
                PrmProof,
                |rng: &mut Rng| PrmProof::<P>::new(rng, &secret, &setup, &aux),
                |p| p.verify(&setup, &aux),
                |v| {
                    let l: Vec<J> = fld(&v, "proof", 2).children().iter().map(|(_, k)| num(k)).collect();
                    obj! {"e" => bit_list(fld(&v, "challenge", 1)), "z" => J::A(l)}
                }
            );
            r.push("phi", nj(&*secret.totient_nonzero().expose_secret().as_ref()));
            r.push("lambda", nj(&*secret.lambda().expose_secret()));
            r.push("n", nj(&secret.modulus()));
            r
        }
        "mod" => run!(
            ModProof,
            |rng: &mut Rng| ModProof::<P>::new(rng, &sk0, &aux),
            |p| p.verify(pk0, &aux),
            |v| obj! {"w" => num(fld(&v, "commitment", 0))}
        ),
        _ => panic!("unknown proof kind {op}"),
    }
}

fn case<P: SchemeParams>(c: &J, keys: &mut Keys<P>) -> J {
    let mut e = c.clone();
    match guarded(|| attempt::<P>(c, keys)) {
        Ok(r) => {
            e.push("panic", false);
            e.push("msg", "");
            e.push("res", r);
        }
        Err(m) => {
            e.push("panic", true);
            e.push("msg", m);
            e.push("res", obj! {"accept" => false, "bin" => false, "hr" => false, "t" => J::A(vec![])});
        }
    }
    e
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let plan = ctx.plan();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
    // interleaved, since some kinds take much longer than others
    let mut parts: Vec<Vec<(usize, J)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let plan = &plan;
                s.spawn(move || {
                    let (mut kt, mut kp) = (Keys::<ProbeTest>::new(), Keys::<Probe112>::new());
                    plan.iter()
                        .enumerate()
                        .filter(|(k, _)| k % n == t)
                        .map(|(k, c)| {
                            let e = match c.get("params").s() {
                                "test" => case::<ProbeTest>(c, &mut kt),
                                _ => case::<Probe112>(c, &mut kp),
                            };
                            (k, e)
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("driver thread")).collect()
    });
    let mut all: Vec<(usize, J)> = parts.drain(..).flatten().collect();
    all.sort_by_key(|x| x.0);
    all.into_iter().for_each(|x| out.ev(x.1));
    ctx.save(&out);
}
