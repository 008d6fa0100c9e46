use super::util::*;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::{
    Ciphertext, CiphertextWire, MaskedRandomizer, PaillierParams, PublicKeyPaillier, PublicKeyPaillierWire, RPCommitmentWire, RPParams,
    RPParamsWire, RPSecret, Randomizer, SecretKeyPaillier, SecretKeyPaillierWire,
};
use crate::params::SchemeParams;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::Bounded;
use std::prelude::v1::*;
use std::{collections::BTreeMap, format, vec};

pub(crate) type Pl<P> = <P as SchemeParams>::Paillier;
pub(crate) type Half<P> = <Pl<P> as PaillierParams>::HalfUint;
pub(crate) type Int<P> = <Pl<P> as PaillierParams>::Uint;
pub(crate) type Wide<P> = <Pl<P> as PaillierParams>::WideUint;
pub(crate) type XWide<P> = <P as SchemeParams>::ExtraWideUint;

/// The first byte string below `v`, big-endian digits of a number.
pub(crate) fn bytes_of(v: &Value) -> Option<&Vec<u8>> {
    match v {
        Value::Bytes(b) => Some(b),
        _ => v.children().into_iter().find_map(|(_, c)| bytes_of(c)),
    }
}
pub(crate) fn bytes_of_mut(v: &mut Value) -> Option<&mut Vec<u8>> {
    if let Value::Bytes(b) = v {
        return Some(b);
    }
    let n = v.children().len();
    let mut hit = None;
    for i in 0..n {
        if v.child_mut(i).map(|c| bytes_of(c).is_some()).unwrap_or(false) {
            hit = Some(i);
            break;
        }
    }
    v.child_mut(hit?).and_then(bytes_of_mut)
}
pub(crate) fn all_bytes_mut<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Vec<u8>>) {
    match v {
        Value::Bytes(b) => out.push(b),
        Value::Seq(l) => l.iter_mut().for_each(|x| all_bytes_mut(x, out)),
        Value::Map(l) => l.iter_mut().for_each(|(_, x)| all_bytes_mut(x, out)),
        Value::Some(x) | Value::Variant(_, x) => all_bytes_mut(x, out),
        _ => {}
    }
}
/// Sets the number at a byte string that is stored the way `is_be` says.
pub(crate) fn set_num(b: &mut Vec<u8>, n: &J, big_endian: bool) {
    let mut x = from_limbs(n, b.len()).expect("number too large for its field");
    if !big_endian {
        x.reverse();
    }
    *b = x;
}
pub(crate) fn val<T: serde::Serialize>(x: &T) -> Value {
    to_value(x, false).expect("not serializable")
}
/// A number on the wire (`PublicUint`: big-endian bytes).
pub(crate) fn wire_num<T: serde::Serialize>(x: &T) -> J {
    limbs(bytes_of(&val(x)).expect("no number in the serialized form"))
}

/// The key with these primes (through serialization, there is no constructor).
pub(crate) fn key<P: SchemeParams>(p: &J, q: &J) -> SecretKeyPaillier<Pl<P>> {
    // learn the encoding from a throw-away key of the same type
    thread_local!(static TEMPLATE: std::cell::RefCell<BTreeMap<u32, (Value, bool)>> = std::cell::RefCell::new(BTreeMap::new()));
    let (mut v, be) = TEMPLATE.with(|t| {
        t.borrow_mut()
            .entry(Pl::<P>::PRIME_BITS)
            .or_insert_with(|| {
                let w = SecretKeyPaillierWire::<Pl<P>>::random(&mut Rng::new(1, "template"));
                let v = val(&w);
                let sk = w.into_precomputed();
                let p = sz(&sk.p_signed()).get("mag").clone();
                let be = limbs(bytes_of(&v).expect("primes")) == p;
                (v, be)
            })
            .clone()
    });
    let mut b = vec![];
    all_bytes_mut(&mut v, &mut b);
    assert!(b.len() == 2, "the wire form of a secret key is not a pair of primes");
    let mut it = b.into_iter();
    set_num(it.next().unwrap(), p, be);
    set_num(it.next().unwrap(), q, be);
    from_value::<SecretKeyPaillierWire<Pl<P>>>(&v, false).expect("primes refused").into_precomputed()
}

pub(crate) fn ssg<T>(z: &J, b: u32) -> SecretSigned<T>
where
    T: zeroize::Zeroize + crypto_bigint::Integer + Bounded + BoxedEncoding + crypto_bigint::subtle::ConditionallySelectable,
{
    SecretSigned::new_from_unsigned(secret(word::<T>(z).expect("word")), b).expect("plan: the value does not fit its bound")
}
pub(crate) fn psg<T: crypto_bigint::Integer + Bounded + BoxedEncoding>(z: &J, b: u32) -> PublicSigned<T> {
    PublicSigned::new_from_unsigned(word::<T>(z).expect("word"), b).expect("plan: the value does not fit its bound")
}
pub(crate) fn wire_of<T: for<'de> serde::Deserialize<'de>>(n: &J, template: Value) -> T {
    let mut v = template;
    let b = bytes_of_mut(&mut v).expect("no number in the serialized form");
    set_num(b, n, true);
    from_value(&v, false).expect("a number was refused")
}
pub(crate) fn masked<P: SchemeParams>(pk: &PublicKeyPaillier<Pl<P>>, n: &J) -> MaskedRandomizer<Pl<P>> {
    let r = Randomizer::<Pl<P>>::random(&mut Rng::new(2, "template"), pk);
    let zero = PublicSigned::<Int<P>>::new_from_unsigned(Default::default(), 0).unwrap();
    wire_of(n, val(&r.to_masked(&r, &zero)))
}
/// The value of a randomizer: masked with itself to the power 0.
pub(crate) fn rho<P: SchemeParams>(r: &Randomizer<Pl<P>>) -> J {
    let zero = PublicSigned::<Int<P>>::new_from_unsigned(Default::default(), 0).unwrap();
    wire_num(&r.to_masked(r, &zero))
}
pub(crate) fn cipher<P: SchemeParams>(pk: &PublicKeyPaillier<Pl<P>>, n: &J) -> Ciphertext<Pl<P>> {
    let one = masked::<P>(pk, &J::A(vec![1.into()]));
    let zero = PublicSigned::<Int<P>>::new_from_unsigned(Default::default(), 0).unwrap();
    let t = Ciphertext::<Pl<P>>::new_public_with_randomizer(pk, &zero, &one);
    wire_of::<CiphertextWire<Pl<P>>>(n, val(&t.to_wire())).to_precomputed(pk)
}
/// A randomizer with a chosen value: the one of a ciphertext of 0 made with it.
pub(crate) fn randomizer<P: SchemeParams>(sk: &SecretKeyPaillier<Pl<P>>, n: &J) -> Randomizer<Pl<P>> {
    let pk = sk.public_key();
    let zero = PublicSigned::<Int<P>>::new_from_unsigned(Default::default(), 0).unwrap();
    Ciphertext::<Pl<P>>::new_public_with_randomizer(pk, &zero, &masked::<P>(pk, n)).derive_randomizer(sk)
}
pub(crate) fn cj<P: SchemeParams>(c: &Ciphertext<Pl<P>>) -> J {
    wire_num(&c.to_wire())
}

fn e() -> J {
    J::A(vec![])
}

/// A case: `op`, primes `p`, `q`, plaintexts `a`, `b` with bounds `ab`, `bb`, randomizers `ra`, `rb`.
fn enc_case<P: SchemeParams>(c: &J, keys: &mut BTreeMap<String, SecretKeyPaillier<Pl<P>>>) -> J {
    let id = format!("{:?}{:?}", c.get("p"), c.get("q"));
    let sk = &*keys.entry(id).or_insert_with(|| key::<P>(c.get("p"), c.get("q")));
    let pk = sk.public_key();
    let (ab, bb) = (c.get("ab").i() as u32, c.get("bb").i() as u32);
    let ra = || randomizer::<P>(sk, c.get("ra"));
    let rb = || randomizer::<P>(sk, c.get("rb"));
    let a = || Ciphertext::<Pl<P>>::new_with_randomizer(pk, &ssg::<Int<P>>(c.get("a"), ab), &ra());
    let b = || Ciphertext::<Pl<P>>::new_with_randomizer(pk, &ssg::<Int<P>>(c.get("b"), bb), &rb());
    let none = obj! {"c" => e(), "m" => z0(), "mb" => 0, "rho" => e(), "same" => false};
    let full = |f: &dyn Fn() -> Ciphertext<Pl<P>>| {
        outcome(
            || Some(f()),
            |x| {
                let m = x.decrypt(sk);
                let again = from_value::<CiphertextWire<Pl<P>>>(&val(&x.to_wire()), false).unwrap().to_precomputed(pk);
                obj! {"c" => cj::<P>(&x), "m" => sz(&m), "mb" => m.bound(), "rho" => rho::<P>(&x.derive_randomizer(sk)),
                    "same" => again == x && x.public_key() == pk}
            },
            none.clone(),
        )
    };
    match c.get("op").s() {
        "enc" => full(&a),
        "encw" => full(&|| Ciphertext::<Pl<P>>::new_wide_with_randomizer(pk, &ssg::<Wide<P>>(c.get("a"), ab), &ra())),
        "encp" => full(&|| {
            Ciphertext::<Pl<P>>::new_public_with_randomizer(pk, &psg::<Int<P>>(c.get("a"), ab), &masked::<P>(pk, c.get("ra")))
        }),
        "encpw" => full(&|| {
            Ciphertext::<Pl<P>>::new_public_wide_with_randomizer(pk, &psg::<Wide<P>>(c.get("a"), ab), &masked::<P>(pk, c.get("ra")))
        }),
        "fresh" => full(&|| {
            let r = Randomizer::<Pl<P>>::random(&mut Rng::new(c.get("n").i() as u64, "fresh"), pk);
            Ciphertext::<Pl<P>>::new_with_randomizer(pk, &ssg::<Int<P>>(c.get("a"), ab), &r)
        }),
        "add1" => full(&|| a() + b()),
        "add2" => full(&|| a() + &b()),
        "add3" => full(&|| &a() + &b()),
        "sub" => full(&|| a() - &b()),
        "mul_ss" => full(&|| a() * &ssg::<Int<P>>(c.get("b"), bb)),
        "mul_ps" => full(&|| a() * &psg::<Int<P>>(c.get("b"), bb)),
        "mulr_ss" => full(&|| &a() * &ssg::<Int<P>>(c.get("b"), bb)),
        "mulr_ps" => full(&|| &a() * &psg::<Int<P>>(c.get("b"), bb)),
        "mul_sw" => full(&|| a() * &ssg::<Wide<P>>(c.get("b"), bb)),
        "mul_pw" => full(&|| &a() * &psg::<Wide<P>>(c.get("b"), bb)),
        // a chosen ciphertext: `ra` is the number itself
        "raw" => full(&|| cipher::<P>(pk, c.get("ra"))),
        // rho_a^b * rho_b
        "mask" => outcome(
            || Some(ra().to_masked(&rb(), &psg::<Int<P>>(c.get("b"), bb))),
            |x| obj! {"c" => wire_num(&x), "m" => z0(), "mb" => 0, "rho" => e(), "same" => true},
            none,
        ),
        // ciphertexts under different keys
        "otheradd" | "otherdec" => {
            let other = key::<P>(c.get("p"), c.get("p2"));
            let x = Ciphertext::<Pl<P>>::new_with_randomizer(
                other.public_key(),
                &ssg::<Int<P>>(c.get("a"), ab),
                &randomizer::<P>(&other, c.get("ra")),
            );
            if c.get("op").s() == "otheradd" {
                full(&|| a() + &x)
            } else {
                outcome(|| Some(x.decrypt(sk)), |m| obj! {"c" => e(), "m" => sz(&m), "mb" => 0, "rho" => e(), "same" => false}, none)
            }
        }
        op => panic!("unknown operation {op}"),
    }
}

fn key_events<P: SchemeParams>(params: &str, sk: SecretKeyPaillier<Pl<P>>, generated: bool, n: usize, rng: &mut Rng, out: &mut Out) {
    let pk = sk.public_key().clone();
    let (p, q) = (sz(&sk.p_signed()), sz(&sk.q_signed()));
    let w = val(&sk.clone().into_wire());
    let restored = from_value::<SecretKeyPaillierWire<Pl<P>>>(&w, false).expect("a serialized key does not restore");
    let rpk = restored.public_key();
    let rsk = restored.into_precomputed();
    let pkw: PublicKeyPaillierWire<Pl<P>> = from_value(&val(pk.as_wire()), false).expect("a serialized public key does not restore");
    let ms = pk.modulus_signed();
    let tot = sk.totient_wide_unsigned();
    out.ev(obj! {"op" => "key", "params" => params, "gen" => generated, "p" => p.clone(), "q" => q.clone(),
        "pb" => sk.p_signed().bound(), "qb" => sk.q_signed().bound(),
        "n" => nj(pk.modulus()), "ns" => pz(&ms), "nb" => ms.bound(), "nz" => nj(&*pk.modulus_nonzero()), "nwz" => nj(&*pk.modulus_wide_nonzero()),
        "nn" => nj(&pk.modulus_mod_modulus_squared().retrieve()),
        "phi" => nj(tot.expose_secret()), "phib" => tot.bound(), "iphi" => nj(sk.inv_totient().retrieve().expose_secret()),
        "in" => nj(sk.inv_modulus().expose_secret()), "inb" => sk.inv_modulus().bound(),
        "wire" => vec![nj(pk.as_wire().modulus()), nj(pk.clone().into_wire().modulus()), nj(rpk.modulus()), nj(pkw.modulus()),
            nj(pkw.clone().into_precomputed().modulus()), nj(rsk.public_key().modulus())],
        "again" => vec![sz(&rsk.p_signed()), sz(&rsk.q_signed())],
        "eq" => rsk.public_key() == &pk && pkw == *pk.as_wire()});
    for _ in 0..n {
        out.ev(obj! {"op" => "unit", "n" => nj(pk.modulus()), "x" => nj(&pk.random_invertible_residue(rng))});
        out.ev(obj! {"op" => "nonsq", "n" => nj(pk.modulus()), "p" => p.get("mag").clone(), "q" => q.get("mag").clone(),
            "x" => nj(&sk.random_nonsquare_residue(rng))});
        let r = Randomizer::<Pl<P>>::random(rng, &pk);
        out.ev(obj! {"op" => "unit", "n" => nj(pk.modulus()), "x" => rho::<P>(&r)});
    }
    // residues derived from a byte stream: the stream, and what came out
    for k in 0..2 * n {
        let len = <Int<P> as Bounded>::BYTES;
        let mut stream = vec![0u8; len * 64];
        rand_core::RngCore::fill_bytes(rng, &mut stream);
        // non-units first, in some streams
        if k % 3 == 1 {
            let pb = from_limbs(p.get("mag"), len).unwrap();
            let le: Vec<u8> = pb.iter().rev().cloned().collect();
            stream[..len].copy_from_slice(if k % 2 == 0 { &pb } else { &le });
        }
        if k % 3 == 2 {
            stream[..len].fill(if k % 2 == 0 { 0 } else { 0xff });
        }
        let mut reader = Stream::new(stream.clone());
        let x = pk.invertible_residue_from_xof_reader(&mut reader);
        let used = reader.pos;
        let mut reader2 = Stream::new(stream);
        out.ev(obj! {"op" => "xof", "n" => nj(pk.modulus()), "x" => nj(&x), "again" => nj(&pk.invertible_residue_from_xof_reader(&mut reader2)),
            "used" => used, "key" => "xof-residue"});
    }
    // residue number system
    let h = |m: &<Half<P> as crypto_bigint::Integer>::Monty| nj(&m.retrieve());
    let mut elems: Vec<Int<P>> = vec![];
    for _ in 0..n {
        let x = pk.random_invertible_residue(rng);
        elems.push(x);
        let m = x.to_monty(pk.monty_params_mod_n());
        elems.push((m * m).retrieve());
    }
    let nb = from_limbs(&nj(pk.modulus()), <Int<P> as Bounded>::BYTES).unwrap();
    let mut minus = nb.clone();
    *minus.last_mut().unwrap() -= 1;
    let pb = from_limbs(p.get("mag"), nb.len()).unwrap();
    let qb = from_limbs(q.get("mag"), nb.len()).unwrap();
    let small = |k: u8| {
        let mut v = vec![0u8; nb.len()];
        *v.last_mut().unwrap() = k;
        v
    };
    for b in [small(0), small(1), small(2), small(4), minus, pb, qb] {
        elems.push(Int::<P>::try_from_be_bytes(&b).unwrap());
    }
    for x in elems {
        let rns = sk.rns_split(&x);
        let sq = sk.rns_sqrt(&rns);
        out.ev(obj! {"op" => "rns", "p" => p.get("mag").clone(), "q" => q.get("mag").clone(), "x" => nj(&x), "a" => h(&rns.0), "b" => h(&rns.1),
            "join" => nj(&sk.rns_join(&rns)), "sq" => sq.is_some(),
            "sa" => sq.as_ref().map(|s| h(&s.0)).unwrap_or(e()), "sb" => sq.as_ref().map(|s| h(&s.1)).unwrap_or(e()),
            "sj" => sq.as_ref().map(|s| nj(&sk.rns_join(s))).unwrap_or(e())});
    }
}
trait ToMonty: crypto_bigint::Integer {
    fn to_monty(&self, p: &<Self::Monty as crypto_bigint::Monty>::Params) -> Self::Monty;
}
impl<T: crypto_bigint::Integer> ToMonty for T {
    fn to_monty(&self, p: &<Self::Monty as crypto_bigint::Monty>::Params) -> Self::Monty {
        <T::Monty as crypto_bigint::Monty>::new(self.clone(), p.clone())
    }
}

pub(crate) fn rp<P: SchemeParams>(n: &J, t: &J, s: &J) -> RPParams<Pl<P>> {
    thread_local!(static TEMPLATE: std::cell::RefCell<BTreeMap<u32, Value>> = std::cell::RefCell::new(BTreeMap::new()));
    let mut v = TEMPLATE.with(|x| {
        x.borrow_mut()
            .entry(Pl::<P>::PRIME_BITS)
            .or_insert_with(|| {
                // only the shape matters
                let len = <Int<P> as Bounded>::BYTES;
                Value::Map(
                    ["modulus", "base_randomizer", "base_value"]
                        .iter()
                        .map(|k| (Value::Str(k.to_string()), Value::Bytes(vec![0; len])))
                        .collect(),
                )
            })
            .clone()
    });
    for (k, x) in [("modulus", n), ("base_randomizer", t), ("base_value", s)] {
        set_num(bytes_of_mut(v.get_mut(k).expect("field")).unwrap(), x, true);
    }
    from_value::<RPParamsWire<Pl<P>>>(&v, false).expect("parameters refused").to_precomputed()
}

fn rp_case<P: SchemeParams>(c: &J) -> J {
    let ps = rp::<P>(c.get("n"), c.get("t"), c.get("s"));
    let (ab, bb) = (c.get("ab").i() as u32, c.get("bb").i() as u32);
    let none = obj! {"c" => e(), "same" => false};
    let (a, b) = (c.get("a"), c.get("b"));
    let uns = |z: &J, bound: u32| SecretUnsigned::<Int<P>>::new(secret(nat(z.get("mag")).unwrap()), bound).unwrap();
    outcome(
        || {
            Some(match c.get("op").s() {
                "ss_sw" => ps.commit(&ssg::<Int<P>>(a, ab), &ssg::<Wide<P>>(b, bb)),
                "sw_ss" => ps.commit(&ssg::<Wide<P>>(a, ab), &ssg::<Int<P>>(b, bb)),
                "sw_sx" => ps.commit(&ssg::<Wide<P>>(a, ab), &ssg::<XWide<P>>(b, bb)),
                "ss_ss" => ps.commit(&ssg::<Int<P>>(a, ab), &ssg::<Int<P>>(b, bb)),
                "ps_pw" => ps.commit(&psg::<Int<P>>(a, ab), &psg::<Wide<P>>(b, bb)),
                "pw_ps" => ps.commit(&psg::<Wide<P>>(a, ab), &psg::<Int<P>>(b, bb)),
                "pw_px" => ps.commit(&psg::<Wide<P>>(a, ab), &psg::<XWide<P>>(b, bb)),
                "us_ss" => ps.commit(&uns(a, ab), &ssg::<Int<P>>(b, bb)),
                "zv_ss" => ps.commit_zero_value(&ssg::<Int<P>>(b, bb)),
                "zv_us" => ps.commit_zero_value(&uns(b, bb)),
                "zv_ps" => ps.commit_zero_value(&psg::<Int<P>>(b, bb)),
                "zr_ss" => ps.commit_zero_randomizer(&ssg::<Int<P>>(a, ab)),
                "zr_pw" => ps.commit_zero_randomizer(&psg::<Wide<P>>(a, ab)),
                // commitments combined: (s^a t^b)^k * s^b t^a
                "prod" => &ps.commit(&ssg::<Int<P>>(a, ab), &ssg::<Int<P>>(b, bb)) * &ps.commit(&ssg::<Int<P>>(b, bb), &ssg::<Int<P>>(a, ab)),
                "pow_ps" => ps.commit_zero_randomizer(&ssg::<Int<P>>(a, ab)).pow(&psg::<Int<P>>(b, bb)),
                "pow_ss" => ps.commit_zero_value(&ssg::<Int<P>>(a, ab)).pow(&ssg::<Int<P>>(b, bb)),
                "pow_pw" => ps.commit_zero_value(&ssg::<Int<P>>(a, ab)).pow(&psg::<Wide<P>>(b, bb)),
                op => panic!("unknown operation {op}"),
            })
        },
        |x| {
            let w: RPCommitmentWire<Pl<P>> = from_value(&val(&x.to_wire()), false).unwrap();
            obj! {"c" => wire_num(&x.to_wire()), "same" => w.to_precomputed(&ps) == x}
        },
        none,
    )
}

fn rp_gen<P: SchemeParams>(params: &str, n: usize, rng: &mut Rng, out: &mut Out) {
    let sec = RPSecret::<Pl<P>>::random(rng);
    for _ in 0..n {
        let ps = RPParams::<Pl<P>>::random_with_secret(rng, &sec);
        let w = ps.to_wire();
        let again = from_value::<RPParamsWire<Pl<P>>>(&val(&w), false).expect("serialized parameters do not restore");
        let v = val(&w);
        let f = |k: &str| limbs(bytes_of(v.get(k).expect("field")).unwrap());
        out.ev(obj! {"op" => "rp", "params" => params, "n" => nj(&sec.modulus()), "phi" => nj(&**sec.totient_nonzero().expose_secret()),
            "lambda" => nj(sec.lambda().expose_secret()), "lb" => sec.lambda().bound(),
            "nn" => nj(ps.modulus()), "t" => nj(&ps.base_randomizer().retrieve()), "s" => nj(&ps.base_value().retrieve()),
            "wire" => vec![f("modulus"), f("base_randomizer"), f("base_value"), nj(again.modulus()), nj(again.to_precomputed().modulus()),
                nj(&again.to_precomputed().base_randomizer().retrieve()), nj(&again.to_precomputed().base_value().retrieve())],
            "res" => nj(sec.random_residue_mod_totient(rng).expose_secret()), "resb" => sec.random_residue_mod_totient(rng).bound()});
    }
}

pub fn run(ctx: &Ctx) {
    let mut out = Out::default();
    let mut rng = ctx.rng("paillier");
    match ctx.get("part") {
        "keys" => {
            for _ in 0..ctx.num("n", 8) {
                let sk = SecretKeyPaillierWire::<Pl<TestParams>>::random(&mut rng).into_precomputed();
                key_events::<TestParams>("test", sk, true, 6, &mut rng, &mut out);
            }
            for _ in 0..ctx.num("prod", 0) {
                let sk = SecretKeyPaillierWire::<Pl<ProductionParams112>>::random(&mut rng).into_precomputed();
                key_events::<ProductionParams112>("p112", sk, true, 2, &mut rng, &mut out);
            }
            for c in ctx.plan() {
                match c.get("params").s() {
                    "test" => key_events::<TestParams>("test", key::<TestParams>(c.get("p"), c.get("q")), false, 4, &mut rng, &mut out),
                    _ => key_events::<ProductionParams112>("p112", key::<ProductionParams112>(c.get("p"), c.get("q")), false, 1, &mut rng, &mut out),
                }
            }
        }
        "enc" => {
            let (mut k1, mut k2) = (BTreeMap::new(), BTreeMap::new());
            for c in ctx.plan() {
                let res = match c.get("params").s() {
                    "test" => enc_case::<TestParams>(&c, &mut k1),
                    _ => enc_case::<ProductionParams112>(&c, &mut k2),
                };
                let mut ev = c.clone();
                ev.push("res", res);
                out.ev(ev);
            }
        }
        "rp" => {
            for _ in 0..ctx.num("n", 3) {
                rp_gen::<TestParams>("test", 4, &mut rng, &mut out);
            }
            for c in ctx.plan() {
                let res = match c.get("params").s() {
                    "test" => rp_case::<TestParams>(&c),
                    _ => rp_case::<ProductionParams112>(&c),
                };
                let mut ev = c.clone();
                ev.push("res", res);
                out.ev(ev);
            }
        }
        p => panic!("unknown part {p}"),
    }
    ctx.save(&out);
}
