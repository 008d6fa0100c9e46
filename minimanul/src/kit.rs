//! What the conformance driver needs besides the protocol layer: JSON (events out, plans in),
//! big numbers as the limb tuples of `spec/lib/BigNat.tla`, and a seeded generator.

use rand_core::{CryptoRng, RngCore};
use std::fmt::Write as _;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(x: $t) -> J { J::I(x as i64) } })* } }
from_int!(i32, i64, u8, u16, u32, u64, usize);
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::B(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::S(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::S(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::A(x.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<J>> From<Option<T>> for J {
    /// A sequence of length 0 or 1.
    fn from(x: Option<T>) -> J {
        J::A(x.into_iter().map(Into::into).collect())
    }
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => &v.iter().find(|(n, _)| n == k).unwrap_or_else(|| panic!("no field {k}")).1,
            _ => panic!("not an object: {self:?}"),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::O(v) if v.iter().any(|(n, _)| n == k))
    }
    pub fn push(&mut self, k: &str, x: impl Into<J>) {
        match self {
            J::O(v) => v.push((k.to_string(), x.into())),
            _ => panic!("not an object"),
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            J::I(i) => *i,
            _ => panic!("not an integer: {self:?}"),
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::B(true))
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let r = parse(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "trailing JSON");
        r
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::O(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = match parse(b, p) {
                    J::S(s) => s,
                    _ => panic!("key"),
                };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let x = parse(b, p);
                v.push((k, x));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::A(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(parse(b, p));
            }
        }
        b'"' => {
            *p += 1;
            let mut s = vec![];
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    s.push(match b[*p] {
                        b'n' => b'\n',
                        b't' => b'\t',
                        c => c,
                    });
                } else {
                    s.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::S(String::from_utf8(s).unwrap())
        }
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("number"))
        }
    }
}

/// `obj! { "k" => v, ... }`
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::kit::J::O(vec![$(($k.to_string(), $crate::kit::J::from($v))),*])
    };
}

/// Big-endian bytes to 15-bit little-endian limbs without leading zero limbs.
pub fn limbs(be: &[u8]) -> J {
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for b in be.iter().rev() {
        acc |= (*b as u32) << n;
        n += 8;
        while n >= 15 {
            out.push(acc & 0x7fff);
            acc >>= 15;
            n -= 15;
        }
    }
    out.push(acc);
    while out.last() == Some(&0) {
        out.pop();
    }
    J::A(out.into_iter().map(|x| J::I(x as i64)).collect())
}

/// Limbs to big-endian bytes of the given length; `None` if the number does not fit.
pub fn from_limbs(j: &J, len: usize) -> Option<Vec<u8>> {
    let mut le = vec![];
    let (mut acc, mut n) = (0u64, 0);
    for x in j.a() {
        acc |= (x.i() as u64) << n;
        n += 15;
        while n >= 8 {
            le.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    }
    while n > 0 {
        le.push(acc as u8);
        acc >>= 8;
        n -= n.min(8);
    }
    while le.len() > len {
        if le.pop() != Some(0) {
            return None;
        }
    }
    le.resize(len, 0);
    le.reverse();
    Some(le)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Seeded generator (SplitMix64), for choosing test inputs only.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, label: &str) -> Self {
        let mut h = seed ^ 0xcbf29ce484222325;
        for b in label.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h);
        r.next_u64();
        r
    }
    /// uniform in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        (self.next_u64() % n.max(1) as u64) as usize
    }
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Rng {}

/// Collects events and writes them as ndjson.
#[derive(Default)]
pub struct Out(pub Vec<J>);
impl Out {
    pub fn ev(&mut self, e: J) {
        self.0.push(e);
    }
    pub fn save(&self, path: &str) {
        let mut s = String::new();
        for e in &self.0 {
            e.write(&mut s);
            s.push('\n');
        }
        std::fs::write(path, s).expect("cannot write the trace");
    }
}

pub fn read_plan(path: &str) -> Vec<J> {
    let text = std::fs::read_to_string(path).expect("cannot read the plan");
    text.lines().filter(|l| !l.trim().is_empty()).map(J::parse).collect()
}
