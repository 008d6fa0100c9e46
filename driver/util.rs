use std::prelude::v1::*;
use std::{collections::BTreeMap, format, vec};

pub use manul::kit::{from_limbs, hex, limbs, read_plan, Out, Rng, J};
pub use manul::obj;
pub use manul::sim::guarded;
pub use manul::value::{from_value, to_value, Value};

pub(crate) use crate::uint::{BoxedEncoding, PublicSigned, SecretSigned, SecretUnsigned};
pub(crate) use crate::tools::Secret;
use crypto_bigint::{Bounded, Integer};

pub struct Ctx {
    pub args: BTreeMap<String, String>,
    pub seed: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(args: &[String]) -> Self {
        let args: BTreeMap<String, String> = args
            .iter()
            .filter_map(|a| a.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
            .collect();
        let seed = args.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = args.get("tier").map(|s| s == "thorough").unwrap_or(false);
        Ctx { args, seed, thorough }
    }
    pub fn get(&self, k: &str) -> &str {
        self.args.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str, default: usize) -> usize {
        self.args.get(k).and_then(|s| s.parse().ok()).unwrap_or(default)
    }
    pub fn rng(&self, label: &str) -> Rng {
        Rng::new(self.seed, label)
    }
    pub fn plan(&self) -> Vec<J> {
        read_plan(self.get("plan"))
    }
    pub fn save(&self, out: &Out) {
        out.save(self.get("out"));
    }
}

/// natural number
pub fn nj<T: BoxedEncoding>(x: &T) -> J {
    limbs(&x.to_be_bytes())
}
/// signed number from sign and magnitude
pub fn zj<T: BoxedEncoding>(neg: bool, mag: &T) -> J {
    let m = nj(mag);
    let neg = neg && m != J::A(vec![]);
    obj! {"neg" => neg, "mag" => m}
}
pub fn z0() -> J {
    obj! {"neg" => false, "mag" => J::A(vec![])}
}
pub fn sz<T>(x: &SecretSigned<T>) -> J
where
    T: zeroize::Zeroize + Integer + Bounded + BoxedEncoding + crypto_bigint::subtle::ConditionallySelectable,
{
    zj(bool::from(x.is_negative()), x.abs_value().expose_secret())
}
pub fn pz<T: Integer + Bounded + BoxedEncoding>(x: &PublicSigned<T>) -> J {
    // through the two's complement representation, so that a broken `abs` shows
    tz(x.value())
}
/// a two's complement word as a signed number
pub fn tz<T: Integer + Bounded + BoxedEncoding>(x: &T) -> J {
    let be = x.to_be_bytes();
    if be[0] & 0x80 != 0 {
        let mut v: Vec<u8> = be.iter().map(|b| !b).collect();
        for b in v.iter_mut().rev() {
            let (s, c) = b.overflowing_add(1);
            *b = s;
            if !c {
                break;
            }
        }
        obj! {"neg" => true, "mag" => limbs(&v)}
    } else {
        obj! {"neg" => false, "mag" => limbs(&be)}
    }
}
pub fn nat<T: BoxedEncoding + Bounded>(j: &J) -> Option<T> {
    let b = from_limbs(j, T::BYTES)?;
    T::try_from_be_bytes(&b).ok()
}
/// two's complement word of a signed number (`None` if the magnitude does not fit the word)
pub fn word<T: BoxedEncoding + Bounded>(z: &J) -> Option<T> {
    let mut b = from_limbs(z.get("mag"), T::BYTES)?;
    if z.get("neg").b() {
        for x in b.iter_mut() {
            *x = !*x;
        }
        for x in b.iter_mut().rev() {
            let (s, c) = x.overflowing_add(1);
            *x = s;
            if !c {
                break;
            }
        }
    }
    T::try_from_be_bytes(&b).ok()
}
pub fn secret<T: zeroize::Zeroize + Clone>(x: T) -> Secret<T> {
    Secret::init_with(|| x)
}
/// Result of a possibly refusing, possibly panicking call, as `[panic, some, r]`.
pub fn outcome<T>(f: impl FnOnce() -> Option<T>, show: impl FnOnce(T) -> J, none: J) -> J {
    match guarded(f) {
        Err(msg) => obj! {"panic" => true, "some" => false, "r" => none, "msg" => msg},
        Ok(None) => obj! {"panic" => false, "some" => false, "r" => none, "msg" => ""},
        Ok(Some(x)) => match guarded(|| show(x)) {
            Ok(r) => obj! {"panic" => false, "some" => true, "r" => r, "msg" => ""},
            Err(msg) => obj! {"panic" => true, "some" => false, "r" => none, "msg" => msg},
        },
    }
}

/// A given byte stream, followed by a generated one.
pub struct Stream {
    pub data: Vec<u8>,
    pub pos: usize,
}
impl Stream {
    pub fn new(data: Vec<u8>) -> Self {
        Stream { data, pos: 0 }
    }
}
impl digest::XofReader for Stream {
    fn read(&mut self, buf: &mut [u8]) {
        for b in buf {
            *b = self.data.get(self.pos).copied().unwrap_or((self.pos * 167 + 13) as u8);
            self.pos += 1;
        }
    }
}
