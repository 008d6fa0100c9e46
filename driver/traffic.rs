// Everything that the parties of an honest session send, taken apart into numbers.
use super::session::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use manul::protocol::*;
use std::collections::BTreeMap;
use std::prelude::v1::*;
use std::sync::OnceLock;
use std::{format, vec};

const STEP: u64 = 1 << 18;
fn key(p: &Point<TestParams>) -> Vec<u8> {
    match to_value(p, false) {
        Ok(Value::Bytes(b)) => b,
        _ => vec![],
    }
}
fn small(x: u64) -> Scalar<TestParams> {
    let len = Scalar::<TestParams>::repr_len();
    let mut b = vec![0; len];
    b[len - 8..].copy_from_slice(&x.to_be_bytes());
    Scalar::try_from_be_bytes(&b).expect("small")
}
/// How many times the generator a point of the test curve is
fn log(p: &Point<TestParams>) -> Option<u64> {
    static TABLE: OnceLock<BTreeMap<Vec<u8>, u64>> = OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let g = small(1).mul_by_generator();
        let mut x = Point::identity();
        (0..STEP)
            .map(|k| {
                let e = (key(&x), k);
                x = x + g;
                e
            })
            .collect()
    });
    let back = (-small(STEP)).mul_by_generator();
    let mut x = *p;
    for k in 0..(1 << 32) / STEP {
        if let Some(y) = t.get(&key(&x)) {
            return Some(k * STEP + y);
        }
        x = x + back;
    }
    None
}
fn bytes(v: &Value) -> Option<Vec<u8>> {
    match v {
        Value::Bytes(b) => Some(b.clone()),
        Value::Str(s) => {
            let h = s.strip_prefix("0x")?;
            (0..h.len() / 2)
                .map(|k| u8::from_str_radix(h.get(2 * k..2 * k + 2)?, 16).ok())
                .collect()
        }
        _ => None,
    }
}
fn leaves(v: &Value, at: &str, out: &mut Vec<(String, Vec<u8>, Value)>) {
    if let Some(b) = bytes(v) {
        out.push((at.to_string(), b, v.clone()));
    }
    for (label, c) in v.children() {
        leaves(c, &format!("{at}.{label}"), out);
    }
}
/// `[round, from, to (0 for all), place, number]`, and of points which multiple of the generator they are; and apart from these the
/// numbers in proofs
pub fn sent<Id: Copy + Into<u32> + PartyId>(
    transcript: &manul::sim::Transcript<Id>,
    logs: bool,
) -> (J, J) {
    let mut out = vec![];
    let mut proofs = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for ((round, from, to), m) in transcript {
        for p in 0..PARTS.len() {
            let Some(raw) = part(m, p) else { continue };
            let (from, to): (u32, u32) = ((*from).into(), (*to).into());
            let to = if p < 2 { 0 } else { to };
            if !seen.insert((*round, from, to, p)) {
                continue;
            }
            let Ok(v) = Value::from_bytes(&raw) else {
                continue;
            };
            let mut ls = vec![];
            leaves(&v, "", &mut ls);
            for (at, b, v) in ls {
                if at.contains("psi") || at.contains("proof") {
                    proofs.push(limbs(&b));
                    continue;
                }
                let mut j = obj! {"r" => *round, "f" => from, "t" => to, "at" => at.as_str(), "v" => limbs(&b)};
                if logs {
                    if let Ok(p) = from_value::<Point<TestParams>>(&v, false) {
                        if let Some(x) = log(&p) {
                            j.push("log", limbs(&x.to_be_bytes()));
                        }
                    }
                }
                out.push(j);
            }
        }
    }
    (J::A(out), J::A(proofs))
}
