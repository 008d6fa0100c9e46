// Scheme parameters with a hash that records what it is fed and whose output can be chosen.
use super::util::*;
use crate::params::SchemeParams;
use digest::{ExtendableOutput, Update, XofReader};
use std::cell::RefCell;
use std::prelude::v1::*;
use std::vec;

/// What the hash answers.
#[derive(Clone)]
pub enum Oracle {
    /// SHAKE256
    Real,
    /// the given stream for every input
    Fixed(Vec<u8>),
    /// the first stream, but the second for the n-th question
    Except(Vec<u8>, Vec<u8>, usize),
    /// the first stream for the given questions, the second for all others
    Known(std::collections::BTreeSet<Vec<u8>>, Vec<u8>, Vec<u8>),
}

thread_local! {
    static ORACLE: RefCell<Oracle> = const { RefCell::new(Oracle::Real) };
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
}

/// Runs `f` with the given oracle; returns also the inputs of all hashes finished meanwhile.
pub fn with_oracle<T>(o: Oracle, f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    ORACLE.with(|x| *x.borrow_mut() = o);
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    ORACLE.with(|x| *x.borrow_mut() = Oracle::Real);
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

#[derive(Clone, Default)]
pub struct Probe {
    data: Vec<u8>,
}
impl Update for Probe {
    fn update(&mut self, data: &[u8]) {
        self.data.extend_from_slice(data);
    }
}
pub enum ProbeReader {
    Real(<sha3::Shake256 as ExtendableOutput>::Reader),
    Fixed(Stream),
}
impl XofReader for ProbeReader {
    fn read(&mut self, buf: &mut [u8]) {
        match self {
            ProbeReader::Real(r) => r.read(buf),
            ProbeReader::Fixed(s) => s.read(buf),
        }
    }
}
impl ExtendableOutput for Probe {
    type Reader = ProbeReader;
    fn finalize_xof(self) -> ProbeReader {
        let n = LOG.with(|l| l.borrow().len());
        let r = ORACLE.with(|o| match &*o.borrow() {
            Oracle::Real => {
                let mut h = sha3::Shake256::default();
                h.update(&self.data);
                ProbeReader::Real(h.finalize_xof())
            }
            Oracle::Fixed(s) => ProbeReader::Fixed(Stream::new(s.clone())),
            Oracle::Known(q, s, t) => ProbeReader::Fixed(Stream::new(if q.contains(&self.data) { s.clone() } else { t.clone() })),
            Oracle::Except(s, t, k) => ProbeReader::Fixed(Stream::new(if n == *k { t.clone() } else { s.clone() })),
        });
        LOG.with(|l| l.borrow_mut().push(self.data));
        r
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct ProbeTest;
impl SchemeParams for ProbeTest {
    type Curve = <crate::dev::TestParams as SchemeParams>::Curve;
    type Digest = Probe;
    const SECURITY_BITS: usize = <crate::dev::TestParams as SchemeParams>::SECURITY_BITS;
    const SECURITY_PARAMETER: usize = <crate::dev::TestParams as SchemeParams>::SECURITY_PARAMETER;
    const L_BOUND: u32 = <crate::dev::TestParams as SchemeParams>::L_BOUND;
    const LP_BOUND: u32 = <crate::dev::TestParams as SchemeParams>::LP_BOUND;
    const EPS_BOUND: u32 = <crate::dev::TestParams as SchemeParams>::EPS_BOUND;
    type Paillier = <crate::dev::TestParams as SchemeParams>::Paillier;
    type ExtraWideUint = <crate::dev::TestParams as SchemeParams>::ExtraWideUint;
}
#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Probe112;
impl SchemeParams for Probe112 {
    type Curve = <crate::k256::ProductionParams112 as SchemeParams>::Curve;
    type Digest = Probe;
    const SECURITY_BITS: usize = <crate::k256::ProductionParams112 as SchemeParams>::SECURITY_BITS;
    const SECURITY_PARAMETER: usize = <crate::k256::ProductionParams112 as SchemeParams>::SECURITY_PARAMETER;
    const L_BOUND: u32 = <crate::k256::ProductionParams112 as SchemeParams>::L_BOUND;
    const LP_BOUND: u32 = <crate::k256::ProductionParams112 as SchemeParams>::LP_BOUND;
    const EPS_BOUND: u32 = <crate::k256::ProductionParams112 as SchemeParams>::EPS_BOUND;
    type Paillier = <crate::k256::ProductionParams112 as SchemeParams>::Paillier;
    type ExtraWideUint = <crate::k256::ProductionParams112 as SchemeParams>::ExtraWideUint;
}
