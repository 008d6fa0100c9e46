// Zero-knowledge proofs put together from given numbers, and their verifiers' answers.
use super::curve::{scalar, scj};
use super::paillier::*;
use super::probe::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::paillier::{
    Ciphertext, CiphertextWire, PaillierParams, PublicKeyPaillier, PublicKeyPaillierWire, RPCommitmentWire, RPParams, Randomizer,
    SecretKeyPaillier, SecretKeyPaillierWire,
};
use crate::params::SchemeParams;
use crate::zk::*;
use std::prelude::v1::*;
use std::{collections::BTreeMap, format, vec};

pub(crate) const AUX: &[u8] = b"context";

/// A hash output: a short pattern followed by random bytes, or one that repeats forever.
pub(crate) fn stream(id: i64, period: usize) -> Vec<u8> {
    let mut s = vec![0u8; 1 << 16];
    rand_core::RngCore::fill_bytes(&mut Rng::new(id as u64, "stream"), &mut s);
    match id {
        // (an all-zero output is refused by the code: the zero challenge of probability 1/q)
        0 => {
            s[..64].fill(0);
            s[7] = 1;
        }
        1 => s[..64].fill(0xff),
        9 => s.iter_mut().enumerate().for_each(|(k, b)| *b = (k % period == period - 1) as u8),
        _ => {}
    }
    s
}

/// Sets a field of a struct by name (by position, should it have been renamed).
pub(crate) fn set(v: &mut Value, name: &str, pos: usize, new: Value) {
    if let Some(x) = v.get_mut(name) {
        *x = new;
        return;
    }
    *v.child_mut(pos).unwrap_or_else(|| panic!("no field {name}")) = new;
}
pub(crate) fn fld<'a>(v: &'a Value, name: &str, pos: usize) -> &'a Value {
    v.get(name).or_else(|| v.children().get(pos).map(|x| x.1)).unwrap_or_else(|| panic!("no field {name}"))
}
pub(crate) fn num(v: &Value) -> J {
    limbs(bytes_of(v).expect("no number"))
}

pub(crate) fn pubkey<P: SchemeParams>(n: &J) -> PublicKeyPaillier<Pl<P>> {
    let w = wire_of::<PublicKeyPaillierWire<Pl<P>>>(n, val(Fix::<P>::get().sk0.public_key().as_wire()));
    w.into_precomputed()
}
pub(crate) fn point<P: SchemeParams>(dlog: &J) -> Point<P> {
    scalar::<P>(dlog).mul_by_generator()
}

/// Some keys and an honest proof of every kind (for their shapes).
pub(crate) struct Fix<P: SchemeParams> {
    pub sk0: SecretKeyPaillier<Pl<P>>,
    pub sk1: SecretKeyPaillier<Pl<P>>,
    pub setup: RPParams<Pl<P>>,
}
impl<P: SchemeParams> Fix<P> {
    pub fn get() -> std::rc::Rc<Self> {
        thread_local!(static FIX: std::cell::RefCell<BTreeMap<std::any::TypeId, std::rc::Rc<dyn std::any::Any>>> = std::cell::RefCell::new(BTreeMap::new()));
        if let Some(f) = FIX.with(|f| f.borrow().get(&std::any::TypeId::of::<P>()).cloned()) {
            return f.downcast::<Self>().unwrap();
        }
        let mut rng = Rng::new(7, "fixture");
        let sk0 = SecretKeyPaillierWire::<Pl<P>>::random(&mut rng).into_precomputed();
        let sk1 = SecretKeyPaillierWire::<Pl<P>>::random(&mut rng).into_precomputed();
        let four = J::A(vec![4.into()]);
        let setup = rp::<P>(&nj(sk1.public_key().modulus()), &four, &J::A(vec![1024.into()]));
        let f = std::rc::Rc::new(Fix { sk0, sk1, setup });
        FIX.with(|m| m.borrow_mut().insert(std::any::TypeId::of::<P>(), f.clone()));
        f
    }
}
pub(crate) fn small<T>(n: i64, bound: u32) -> SecretSigned<T>
where
    T: zeroize::Zeroize + crypto_bigint::Integer + crypto_bigint::Bounded + BoxedEncoding + crypto_bigint::subtle::ConditionallySelectable,
{
    ssg::<T>(&obj! {"neg" => n < 0, "mag" => limbs(&n.unsigned_abs().to_be_bytes())}, bound)
}
/// An honest proof of the given kind, made under the current oracle.
pub(crate) fn honest<P: SchemeParams>(op: &str, rng: &mut Rng) -> Value {
    let f = Fix::<P>::get();
    let (pk0, pk1) = (f.sk0.public_key(), f.sk1.public_key());
    let x = small::<Int<P>>(3, 8);
    let y = small::<Int<P>>(5, 8);
    let sc = |n: u64| Scalar::<P>::from(n);
    let g = |n: u64| sc(n).mul_by_generator();
    let r0 = Randomizer::<Pl<P>>::random(rng, pk0);
    let r1 = Randomizer::<Pl<P>>::random(rng, pk1);
    match op {
        "encelg" => {
            let c = Ciphertext::new_with_randomizer(pk0, &x, &r0);
            let public = EncElgPublicInputs { pk0, cap_c: &c, cap_a: &g(2), cap_b: &g(4), cap_x: &g(11) };
            val(&EncElgProof::<P>::new(rng, EncElgSecretInputs { x: &x, rho: &r0, b: &secret(sc(4)) }, public, &f.setup, &AUX))
        }
        "affg" | "affgstar" => {
            let c = Ciphertext::new_with_randomizer(pk0, &x, &r0);
            let d = &c * &x + Ciphertext::new_with_randomizer(pk0, &-&y, &r0);
            let cy = Ciphertext::new_with_randomizer(pk1, &y, &r1);
            if op == "affg" {
                let public = AffGPublicInputs { pk0, pk1, cap_c: &c, cap_d: &d, cap_y: &cy, cap_x: &g(3) };
                let sec = AffGSecretInputs { x: &x, y: &y, rho: &r0, rho_y: &r1 };
                val(&AffGProof::<P>::new(rng, sec, public, &f.setup, &AUX))
            } else {
                let public = AffGStarPublicInputs { pk0, pk1, cap_c: &c, cap_d: &d, cap_y: &cy, cap_x: &g(3) };
                let sec = AffGStarSecretInputs { x: &x, y: &y, rho: &r0, mu: &r1 };
                val(&AffGStarProof::<P>::new(rng, sec, public, &AUX))
            }
        }
        "dec" => {
            // enc(y, rho) = K * x + D
            let k = Ciphertext::new_with_randomizer(pk0, &y, &r1_for(pk0, rng));
            let d = Ciphertext::new_with_randomizer(pk0, &y, &r0) + &k * &-&x;
            let public = DecPublicInputs { pk0, cap_k: &k, cap_x: &g(3), cap_d: &d, cap_s: &(g(2) * sc(5)), cap_g: &g(2), num_parties: 3 };
            val(&DecProof::<P>::new(rng, DecSecretInputs { x: &x, y: &y, rho: &r0 }, public, &f.setup, &AUX))
        }
        "fac" => val(&FacProof::<P>::new(rng, &f.sk0, &f.setup, &AUX)),
        "elog" => {
            // L = g lambda, M = g y + X lambda, Y = h y
            let public = ElogPublicInputs { cap_l: &g(3), cap_m: &g(5 + 7 * 3), cap_x: &g(7), cap_y: &g(2 * 5), h: &g(2) };
            val(&ElogProof::<P>::new(rng, ElogSecretInputs { y: &secret(sc(5)), lambda: &secret(sc(3)) }, public, &AUX))
        }
        "sch" => {
            let s = SchSecret::<P>::random(rng);
            let k = SchCommitment::new(&s);
            val(&SchProof::<P>::new(&s, &secret(sc(3)), &k, &g(3), &AUX))
        }
        "prm" => {
            let s = crate::paillier::RPSecret::<Pl<P>>::random(rng);
            let setup = RPParams::random_with_secret(rng, &s);
            val(&PrmProof::<P>::new(rng, &s, &setup, &AUX))
        }
        "mod" => val(&ModProof::<P>::new(rng, &f.sk0, &AUX)),
        _ => panic!("unknown proof kind {op}"),
    }
}
fn r1_for<P: PaillierParams>(pk: &PublicKeyPaillier<P>, rng: &mut Rng) -> Randomizer<P> {
    Randomizer::random(rng, pk)
}

pub(crate) fn bit_list(v: &Value) -> J {
    #[derive(serde::Deserialize)]
    struct Packed(crate::tools::bitvec::BitVec);
    let b = from_value::<Packed>(v, false).expect("bits").0;
    b.bits().iter().map(|x| J::B(*x)).collect::<Vec<_>>().into()
}
fn bits_value(j: &J) -> Value {
    let n = j.a().len();
    let mut bytes = vec![0u8; n.div_ceil(8)];
    j.a().iter().enumerate().for_each(|(k, b)| bytes[k / 8] |= (b.b() as u8) << (7 - k % 8));
    let t = val(&crate::tools::bitvec::BitVec::from_xof_reader(&mut Stream::new(vec![0; 64]), 8));
    let mut v = t;
    set(&mut v, "bits", 0, Value::U(n as u128));
    set(&mut v, "byte_vec", 1, Value::Bytes(bytes));
    v
}

const KINDS: [(&str, &str); 9] =
    [("encelg", "e"), ("affg", "e"), ("affgstar", "e"), ("dec", "e"), ("fac", "e"), ("elog", "e"), ("sch", "challenge"), ("prm", "challenge"), ("mod", "challenge")];

/// What challenges the given hash outputs lead to.
fn challenges<P: SchemeParams>(params: &str, plan: &[J], streams: &[i64], out: &mut Out) {
    let period = <Int<P> as crypto_bigint::Bounded>::BYTES;
    for (op, name) in KINDS {
        if op == "mod" {
            continue;
        }
        if params != "test" && matches!(op, "affgstar" | "dec" | "prm") {
            continue;
        }
        for &id in streams {
            let mut rng = Rng::new(11, op);
            let (p, _) = with_oracle(Oracle::Fixed(stream(id, period)), || honest::<P>(op, &mut rng));
            let pos = if op == "prm" { 1 } else { 0 };
            let v = fld(&p, name, pos);
            let h = match op {
                "affgstar" | "dec" | "prm" => bit_list(v),
                "fac" => pz(&from_value::<PublicSigned<Int<P>>>(v, false).expect("challenge")),
                _ => scj(&from_value::<Scalar<P>>(v, false).expect("challenge")),
            };
            out.ev(obj! {"op" => op, "params" => params, "stream" => id, "h" => h});
        }
    }
    for k in plan {
        if k.get("params").s() != params {
            continue;
        }
        let prime = k.get("q").a().is_empty();
        let pk = if prime { pubkey::<P>(k.get("p")) } else { key::<P>(k.get("p"), k.get("q")).public_key().clone() };
        for id in [2, 9] {
            let mut r = Stream::new(stream(id, period));
            // one draw after the other, as `ModProof::new` shows below for a key it can be asked for
            let h: Vec<J> = (0..P::SECURITY_BITS).map(|_| nj(&pk.invertible_residue_from_xof_reader(&mut r))).collect();
            if !prime {
                let sk = key::<P>(k.get("p"), k.get("q"));
                let mut rng = Rng::new(12, "mod");
                let (p, _) = with_oracle(Oracle::Fixed(stream(id, period)), || val(&ModProof::<P>::new(&mut rng, &sk, &AUX)));
                let got: Vec<J> = fld(&p, "challenge", 1).children().iter().map(|x| num(x.1)).collect();
                assert!(got == h, "the challenges of the modulus proof are not drawn in sequence");
            }
            out.ev(obj! {"op" => "mod", "params" => params, "stream" => id, "h" => h, "p" => k.get("p").clone(), "q" => k.get("q").clone()});
        }
    }
}

/// A proof with the numbers of a case, and the verifier's answer. `mk` gives the shape.
pub(crate) struct Built<P: SchemeParams> {
    op: String,
    c: J,
    proof: Value,
    pk0: PublicKeyPaillier<Pl<P>>,
    pk1: PublicKeyPaillier<Pl<P>>,
    setup: RPParams<Pl<P>>,
}

fn zv<T: crypto_bigint::Integer + crypto_bigint::Bounded + BoxedEncoding>(z: &J, tight: bool) -> Value
where
    PublicSigned<T>: serde::Serialize,
{
    let b = if tight {
        let m = from_limbs(z.get("mag"), T::BYTES).unwrap();
        m.iter().position(|x| *x != 0).map(|i| (m.len() - i) as u32 * 8 - m[i].leading_zeros()).unwrap_or(0)
    } else {
        T::BITS - 1
    };
    val(&psg::<T>(z, b))
}

impl<P: SchemeParams> Built<P> {
    pub fn new(c: &J, shapes: &mut BTreeMap<String, Value>) -> Self {
        let op = c.get("op").s().to_string();
        let shape = shapes.entry(format!("{op}{}", c.get("params").s())).or_insert_with(|| {
            let mut rng = Rng::new(13, &op);
            with_oracle(Oracle::Real, || honest::<P>(&op, &mut rng)).0
        });
        let mut v = shape.clone();
        let pk0 = pubkey::<P>(c.get("n0"));
        let pk1 = pubkey::<P>(c.get("n1"));
        let setup = rp::<P>(c.get("hn"), c.get("ht"), c.get("hs"));
        let f = c.get("f");
        let tight = c.get("tight").b();
        let ct0 = |n: &J| val(&cipher::<P>(&pk0, n).to_wire());
        let ct1 = |n: &J| val(&cipher::<P>(&pk1, n).to_wire());
        let rc = |t: &Value, n: &J| {
            let mut v = t.clone();
            *bytes_of_mut(&mut v).expect("commitment") = from_limbs(n, <Int<P> as crypto_bigint::Bounded>::BYTES).unwrap();
            v
        };
        let pt = |d: &J| val(&point::<P>(d));
        let sv = |d: &J| val(&scalar::<P>(d));
        let zi = |z: &J| zv::<Int<P>>(z, tight);
        let zw = |z: &J| zv::<Wide<P>>(z, tight);
        let mr = |pk: &PublicKeyPaillier<Pl<P>>, n: &J| val(&masked::<P>(pk, n));
        match op.as_str() {
            "encelg" => {
                let t = fld(&v, "cap_s", 1).clone();
                set(&mut v, "e", 0, sv(f.get("e")));
                set(&mut v, "cap_s", 1, rc(&t, f.get("S")));
                set(&mut v, "cap_d", 2, ct0(f.get("D")));
                set(&mut v, "cap_y", 3, pt(f.get("Y")));
                set(&mut v, "cap_z", 4, pt(f.get("Z")));
                set(&mut v, "cap_t", 5, rc(&t, f.get("T")));
                set(&mut v, "z1", 6, zi(f.get("z1")));
                set(&mut v, "w", 7, sv(f.get("w")));
                set(&mut v, "z2", 8, mr(&pk0, f.get("z2")));
                set(&mut v, "z3", 9, zw(f.get("z3")));
            }
            "affg" => {
                let t = fld(&v, "cap_e", 4).clone();
                set(&mut v, "e", 0, sv(f.get("e")));
                set(&mut v, "cap_a", 1, ct0(f.get("A")));
                set(&mut v, "cap_b_x", 2, pt(f.get("Bx")));
                set(&mut v, "cap_b_y", 3, ct1(f.get("By")));
                set(&mut v, "cap_e", 4, rc(&t, f.get("E")));
                set(&mut v, "cap_s", 5, rc(&t, f.get("S")));
                set(&mut v, "cap_f", 6, rc(&t, f.get("F")));
                set(&mut v, "cap_t", 7, rc(&t, f.get("T")));
                set(&mut v, "z1", 8, zi(f.get("z1")));
                set(&mut v, "z2", 9, zi(f.get("z2")));
                set(&mut v, "z3", 10, zw(f.get("z3")));
                set(&mut v, "z4", 11, zw(f.get("z4")));
                set(&mut v, "w", 12, mr(&pk0, f.get("w")));
                set(&mut v, "w_y", 13, mr(&pk1, f.get("wy")));
            }
            "fac" => {
                let t = fld(&v, "cap_p", 1).clone();
                // with the bound the hash output comes with
                set(&mut v, "e", 0, val(&psg::<Int<P>>(f.get("e"), P::L_BOUND)));
                set(&mut v, "cap_p", 1, rc(&t, f.get("P")));
                set(&mut v, "cap_q", 2, rc(&t, f.get("Q")));
                set(&mut v, "cap_a", 3, rc(&t, f.get("A")));
                set(&mut v, "cap_b", 4, rc(&t, f.get("B")));
                set(&mut v, "cap_t", 5, rc(&t, f.get("T")));
                set(&mut v, "z1", 6, zw(f.get("z1")));
                set(&mut v, "z2", 7, zw(f.get("z2")));
                set(&mut v, "w1", 8, zw(f.get("w1")));
                set(&mut v, "w2", 9, zw(f.get("w2")));
                set(&mut v, "v", 10, zv::<XWide<P>>(f.get("v"), tight));
            }
            "affgstar" | "dec" => {
                let ct = fld(&v, "commitments", 1).children()[0].1.clone();
                let zt = fld(&v, "elements", 2).children()[0].1.clone();
                let star = op == "affgstar";
                let cs = f.get("c").a().iter().map(|k| {
                    let mut x = ct.clone();
                    set(&mut x, "cap_a", 0, ct0(k.get("A")));
                    if star {
                        set(&mut x, "cap_r", 1, pt(k.get("R")));
                        set(&mut x, "cap_b", 2, ct1(k.get("B")));
                    } else {
                        set(&mut x, "cap_b", 1, pt(k.get("B")));
                        set(&mut x, "cap_c", 2, pt(k.get("C")));
                    }
                    x
                });
                let zs = f.get("z").a().iter().map(|z| {
                    let mut x = zt.clone();
                    set(&mut x, "z", 0, zi(z.get("z")));
                    if star {
                        set(&mut x, "z_prime", 1, zi(z.get("zp")));
                        set(&mut x, "w", 2, mr(&pk0, z.get("w")));
                        set(&mut x, "lambda", 3, mr(&pk1, z.get("l")));
                    } else {
                        set(&mut x, "w", 1, zw(z.get("w")));
                        set(&mut x, "nu", 2, mr(&pk0, z.get("nu")));
                    }
                    x
                });
                let (cs, zs) = (Value::Seq(cs.collect()), Value::Seq(zs.collect()));
                set(&mut v, "e", 0, bits_value(f.get("e")));
                set(&mut v, "commitments", 1, cs);
                set(&mut v, "elements", 2, zs);
            }
            "elog" => {
                set(&mut v, "e", 0, sv(f.get("e")));
                set(&mut v, "cap_a", 1, pt(f.get("A")));
                set(&mut v, "cap_n", 2, pt(f.get("N")));
                set(&mut v, "cap_b", 3, pt(f.get("B")));
                set(&mut v, "z", 4, sv(f.get("z")));
                set(&mut v, "u", 5, sv(f.get("u")));
            }
            "sch" => {
                set(&mut v, "challenge", 0, sv(f.get("e")));
                set(&mut v, "proof", 1, sv(f.get("p")));
            }
            "prm" => {
                let t = fld(&v, "commitment", 0).children()[0].1.clone();
                let l = |k: &str| Value::Seq(f.get(k).a().iter().map(|n| rc(&t, n)).collect());
                let (a, z) = (l("a"), l("z"));
                set(&mut v, "commitment", 0, a);
                set(&mut v, "challenge", 1, bits_value(f.get("e")));
                set(&mut v, "proof", 2, z);
            }
            "mod" => {
                let t = fld(&v, "challenge", 1).children()[0].1.clone();
                let et = fld(&v, "proof", 2).children()[0].1.clone();
                let w = rc(fld(&v, "commitment", 0), f.get("w"));
                let ys = Value::Seq(f.get("y").a().iter().map(|n| rc(&t, n)).collect());
                let es = f.get("e").a().iter().map(|k| {
                    let mut x = et.clone();
                    set(&mut x, "x", 0, rc(&t, k.get("x")));
                    set(&mut x, "a", 1, Value::Bool(k.get("a").b()));
                    set(&mut x, "b", 2, Value::Bool(k.get("b").b()));
                    set(&mut x, "z", 3, rc(&t, k.get("z")));
                    x
                });
                let es = Value::Seq(es.collect());
                set(&mut v, "commitment", 0, w);
                set(&mut v, "challenge", 1, ys);
                set(&mut v, "proof", 2, es);
            }
            _ => panic!("unknown proof kind {op}"),
        }
        Built { op, c: c.clone(), proof: v, pk0, pk1, setup }
    }
    pub fn verify(&self, aux: &[u8]) -> bool {
        let c = &self.c;
        let u = c.get("u");
        let (pk0, pk1, setup) = (&self.pk0, &self.pk1, &self.setup);
        let p = |k: &str| point::<P>(u.get(k));
        let c0 = |k: &str| cipher::<P>(pk0, u.get(k));
        let c1 = |k: &str| cipher::<P>(pk1, u.get(k));
        macro_rules! proof {
            ($t:ident) => {
                from_value::<$t<P>>(&self.proof, false).unwrap_or_else(|e| panic!("driver: the proof does not deserialize: {e}"))
            };
        }
        match self.op.as_str() {
            "encelg" => {
                let public = EncElgPublicInputs { pk0, cap_c: &c0("C"), cap_a: &p("a"), cap_b: &p("b"), cap_x: &p("x") };
                proof!(EncElgProof).verify(public, setup, &aux)
            }
            "affg" => {
                let public = AffGPublicInputs { pk0, pk1, cap_c: &c0("C"), cap_d: &c0("D"), cap_y: &c1("Y"), cap_x: &p("x") };
                proof!(AffGProof).verify(public, setup, &aux)
            }
            "affgstar" => {
                let public = AffGStarPublicInputs { pk0, pk1, cap_c: &c0("C"), cap_d: &c0("D"), cap_y: &c1("Y"), cap_x: &p("x") };
                proof!(AffGStarProof).verify(public, &aux)
            }
            "dec" => {
                let public = DecPublicInputs {
                    pk0,
                    cap_k: &c0("K"),
                    cap_x: &p("x"),
                    cap_d: &c0("D"),
                    cap_s: &p("s"),
                    cap_g: &p("g"),
                    num_parties: u.get("parties").i() as usize,
                };
                proof!(DecProof).verify(public, setup, &aux)
            }
            "fac" => proof!(FacProof).verify(pk0, setup, &aux),
            "elog" => {
                let public = ElogPublicInputs { cap_l: &p("l"), cap_m: &p("m"), cap_x: &p("x"), cap_y: &p("y"), h: &p("h") };
                proof!(ElogProof).verify(public, &aux)
            }
            "sch" => {
                let k = from_value::<SchCommitment<P>>(&val(&p("k")), false).expect("commitment");
                proof!(SchProof).verify(&k, &p("x"), &aux)
            }
            "prm" => proof!(PrmProof).verify(setup, &aux),
            "mod" => proof!(ModProof).verify(pk0, &aux),
            _ => unreachable!(),
        }
    }
}

fn judge_case<P: SchemeParams>(c: &J, shapes: &mut BTreeMap<String, Value>) -> J {
    let b = Built::<P>::new(c, shapes);
    let s = stream(c.get("stream").i(), <Int<P> as crypto_bigint::Bounded>::BYTES);
    let r = with_oracle(Oracle::Fixed(s), || guarded(|| b.verify(AUX))).0;
    let mut e = c.clone();
    match r {
        Ok(a) => {
            e.push("accept", a);
            e.push("panic", false);
            e.push("msg", "");
        }
        Err(m) => {
            if m.contains("driver:") {
                panic!("{m}");
            }
            e.push("accept", false);
            e.push("panic", true);
            e.push("msg", m);
        }
    }
    e
}

/// Which questions the verifier puts to the hash.
fn bind<P: SchemeParams>(kind: &str, params: &str, cases: &[&J], shapes: &mut BTreeMap<String, Value>) -> Vec<J> {
    let mut ids: BTreeMap<Vec<u8>, i64> = BTreeMap::new();
    let mut prefix: Option<Vec<u8>> = None;
    let mut det: Vec<i64> = vec![];
    let mut first = std::collections::BTreeSet::new();
    let mut evs = vec![];
    for c in cases {
        let b = Built::<P>::new(c, shapes);
        let aux = c.get("aux").s().as_bytes().to_vec();
        let s = stream(c.get("stream").i(), <Int<P> as crypto_bigint::Bounded>::BYTES);
        let ask = |o: Oracle| with_oracle(o, || guarded(|| b.verify(&aux)));
        let (r, log) = ask(Oracle::Fixed(s.clone()));
        let base = c.get("comp").s() == "base";
        let t = stream(77, <Int<P> as crypto_bigint::Bounded>::BYTES);
        // the accepted proof's questions have been answered, the answers to others are independent of that
        let accept = if base {
            first = log.iter().cloned().collect();
            r == Ok(true)
        } else {
            ask(Oracle::Known(first.clone(), s.clone(), t.clone())).0 == Ok(true)
        };
        if let Err(m) = &r {
            assert!(!m.contains("driver:"), "{m}");
        }
        let asked: Vec<i64> = log.iter().map(|x| { let n = ids.len() as i64; *ids.entry(x.clone()).or_insert(n) }).collect();
        if base {
            // the questions whose answer matters
            for k in 0..log.len() {
                if ask(Oracle::Except(s.clone(), t.clone(), k)).0 != r {
                    det.push(asked[k]);
                    let p = prefix.get_or_insert_with(|| log[k].clone());
                    let same = p.iter().zip(log[k].iter()).take_while(|(a, b)| a == b).count();
                    p.truncate(same);
                }
            }
        }
        for x in log {
            if let Some(p) = prefix.as_mut() {
                // (questions of the same kind only: those that begin alike)
                let same = p.iter().zip(x.iter()).take_while(|(a, b)| a == b).count();
                if same > 8 {
                    p.truncate(same);
                }
            }
        }
        let list = |v: &[i64]| J::A(v.iter().map(|x| (*x).into()).collect());
        evs.push(obj! {"op" => if base { "base" } else { "other" }, "kind" => kind, "params" => params, "comp" => c.get("comp").clone(),
            "det" => list(&det), "asked" => list(&asked), "accept" => accept, "prefix" => J::A(vec![])});
    }
    let p = prefix.unwrap_or_default();
    let p: Vec<J> = p.iter().take(64).map(|b| (*b as i64).into()).collect();
    evs.push(obj! {"op" => "prefix", "kind" => kind, "params" => params, "comp" => "prefix", "det" => J::A(vec![]), "asked" => J::A(vec![]),
        "accept" => true, "prefix" => J::A(p)});
    evs
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let plan = ctx.plan();
    match ctx.get("part") {
        "chal" => {
            let params: std::collections::BTreeSet<String> = plan.iter().map(|k| k.get("params").s().to_string()).collect();
            for p in params {
                if p == "test" {
                    challenges::<ProbeTest>(&p, &plan, if ctx.thorough { &[0, 1, 2, 3] } else { &[0, 1, 2] }, &mut out);
                } else {
                    challenges::<Probe112>(&p, &plan, &[2], &mut out);
                }
            }
        }
        "bind" => {
            let mut groups: Vec<(String, String, Vec<&J>)> = vec![];
            for c in &plan {
                let (k, p) = (c.get("op").s().to_string(), c.get("params").s().to_string());
                match groups.iter_mut().find(|g| g.0 == k && g.1 == p) {
                    Some(g) => g.2.push(c),
                    None => groups.push((k, p, vec![c])),
                }
            }
            let parts: Vec<Vec<J>> = std::thread::scope(|s| {
                let hs: Vec<_> = groups
                    .iter()
                    .map(|(k, p, cs)| {
                        s.spawn(move || {
                            let mut shapes = BTreeMap::new();
                            if p == "test" {
                                bind::<ProbeTest>(k, p, cs, &mut shapes)
                            } else {
                                bind::<Probe112>(k, p, cs, &mut shapes)
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("driver thread")).collect()
            });
            parts.into_iter().flatten().for_each(|e| out.ev(e));
        }
        _ => {
            let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
            let chunk = plan.len().div_ceil(n).max(1);
            let parts: Vec<Vec<J>> = std::thread::scope(|s| {
                let hs: Vec<_> = plan
                    .chunks(chunk)
                    .map(|cs| {
                        s.spawn(move || {
                            let mut shapes = BTreeMap::new();
                            cs.iter()
                                .map(|c| match c.get("params").s() {
                                    "test" => judge_case::<ProbeTest>(c, &mut shapes),
                                    _ => judge_case::<Probe112>(c, &mut shapes),
                                })
                                .collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("driver thread")).collect()
            });
            parts.into_iter().flatten().for_each(|e| out.ev(e));
        }
    }
    ctx.save(&out);
}
