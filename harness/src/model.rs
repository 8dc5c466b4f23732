//! Reference model of bit-vector values: a width and its little-endian words (always canonical),
//! with arithmetic done on unbounded integers.

use baa::*;
use num_bigint::{BigInt, BigUint, Sign};
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Bv {
    pub w: u32,
    pub x: Vec<u64>,
}

pub fn nwords(w: u32) -> usize {
    (w as usize).div_ceil(64)
}

impl std::fmt::Debug for Bv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}'h{:x}", self.w, self.u())
    }
}

impl Bv {
    /// takes the low `w` bits of the words (missing words are zero)
    pub fn new(w: u32, mut x: Vec<u64>) -> Self {
        x.resize(nwords(w), 0);
        if w % 64 != 0 {
            if let Some(l) = x.last_mut() {
                *l &= (1u64 << (w % 64)) - 1;
            }
        }
        Self { w, x }
    }
    pub fn zero(w: u32) -> Self {
        Self::new(w, vec![])
    }
    pub fn ones(w: u32) -> Self {
        Self::new(w, vec![u64::MAX; nwords(w)])
    }
    pub fn from_u(w: u32, v: &BigUint) -> Self {
        Self::new(w, v.to_u64_digits().into_iter().take(nwords(w)).collect())
    }
    /// two's complement
    pub fn from_i(w: u32, v: &BigInt) -> Self {
        let m = BigInt::from(1) << w;
        let r = ((v % &m) + &m) % &m;
        Self::from_u(w, r.magnitude())
    }
    pub fn from_u64(w: u32, v: u64) -> Self {
        Self::new(w, vec![v])
    }
    pub fn from_bits(bits: &[bool]) -> Self {
        let mut x = vec![0u64; bits.len().div_ceil(64)];
        for (i, b) in bits.iter().enumerate() {
            if *b {
                x[i / 64] |= 1 << (i % 64);
            }
        }
        Self::new(bits.len() as u32, x)
    }
    pub fn u(&self) -> BigUint {
        let mut d = Vec::with_capacity(self.x.len() * 2);
        for w in &self.x {
            d.push(*w as u32);
            d.push((*w >> 32) as u32);
        }
        BigUint::new(d)
    }
    /// two's complement value; 0 at width 0
    pub fn i(&self) -> BigInt {
        if self.neg() {
            BigInt::from_biguint(Sign::Plus, self.u()) - (BigInt::from(1) << self.w)
        } else {
            BigInt::from_biguint(Sign::Plus, self.u())
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.x[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn bits(&self) -> Vec<bool> {
        (0..self.w).map(|i| self.bit(i)).collect()
    }
    pub fn with_bit(&self, i: u32, v: bool) -> Self {
        let mut r = self.clone();
        let m = 1u64 << (i % 64);
        if v {
            r.x[(i / 64) as usize] |= m;
        } else {
            r.x[(i / 64) as usize] &= !m;
        }
        r
    }
    pub fn neg(&self) -> bool {
        self.w > 0 && self.bit(self.w - 1)
    }
    pub fn is_zero(&self) -> bool {
        self.x.iter().all(|w| *w == 0)
    }
    pub fn is_one(&self) -> bool {
        self.w > 0 && self.x[0] == 1 && self.x[1..].iter().all(|w| *w == 0)
    }
    pub fn not(&self) -> Self {
        Self::new(self.w, self.x.iter().map(|w| !w).collect())
    }
    pub fn add(&self, o: &Self) -> Self {
        Self::from_u(self.w, &(self.u() + o.u()))
    }
    pub fn sub(&self, o: &Self) -> Self {
        Self::from_u(self.w, &(self.u() + (BigUint::from(1u8) << self.w) - o.u()))
    }
    pub fn mul(&self, o: &Self) -> Self {
        Self::from_u(self.w, &(self.u() * o.u()))
    }
    pub fn negate(&self) -> Self {
        Self::from_u(self.w, &((BigUint::from(1u8) << self.w) - self.u()))
    }
    pub fn zip(&self, o: &Self, f: impl Fn(u64, u64) -> u64) -> Self {
        Self::new(self.w, self.x.iter().zip(&o.x).map(|(a, b)| f(*a, *b)).collect())
    }
    /// shift amount: None if at or above the width
    fn amount(&self, by: &Self) -> Option<u32> {
        let v = by.u();
        if v >= BigUint::from(self.w) {
            None
        } else {
            Some(by.x.first().copied().unwrap_or(0) as u32)
        }
    }
    pub fn shl(&self, by: &Self) -> Self {
        match self.amount(by) {
            None => Self::zero(self.w),
            Some(n) => Self::from_u(self.w, &(self.u() << n)),
        }
    }
    pub fn shr(&self, by: &Self) -> Self {
        match self.amount(by) {
            None => Self::zero(self.w),
            Some(n) => Self::from_u(self.w, &(self.u() >> n)),
        }
    }
    pub fn sar(&self, by: &Self) -> Self {
        match self.amount(by) {
            None if self.neg() => Self::ones(self.w),
            None => Self::zero(self.w),
            // BigInt >> rounds towards minus infinity
            Some(n) => Self::from_i(self.w, &(self.i() >> n)),
        }
    }
    pub fn slice(&self, hi: u32, lo: u32) -> Self {
        Self::from_u(hi - lo + 1, &(self.u() >> lo))
    }
    pub fn concat(&self, lo: &Self) -> Self {
        Self::from_u(self.w + lo.w, &((self.u() << lo.w) | lo.u()))
    }
    pub fn zext(&self, by: u32) -> Self {
        Self::from_u(self.w + by, &self.u())
    }
    pub fn sext(&self, by: u32) -> Self {
        Self::from_i(self.w + by, &self.i())
    }
    /// low bits if narrower, zero extension if wider
    pub fn resize(&self, w: u32) -> Self {
        Self::new(w, self.x.clone())
    }

    /// the baa value with these bits, built from raw words only
    pub fn val(&self) -> BitVecValue {
        let mut v = BitVecValue::zero(self.w);
        v.words_mut().copy_from_slice(&self.x);
        v
    }
}

/// Is `v` exactly the value `e` in canonical form?
pub fn same<V: BitVecOps>(v: &V, e: &Bv) -> bool {
    v.width() == e.w && v.words() == e.x.as_slice()
}

pub fn show<V: BitVecOps>(v: &V) -> String {
    let hex: Vec<String> = v.words().iter().rev().map(|w| format!("{w:016x}")).collect();
    format!("width {} words(msw first) [{}]", v.width(), hex.join(" "))
}

/// Checks a result, with a description that is only computed on failure.
pub fn expect<V: BitVecOps>(v: &V, e: &Bv, what: impl FnOnce() -> String) -> Result<(), String> {
    if same(v, e) {
        Ok(())
    } else {
        Err(format!("{}: got {}, expected {:?} (words {})", what(), show(v), e, e.x.len()))
    }
}

pub fn expect_eq<T: PartialEq + std::fmt::Debug>(a: T, e: T, what: impl FnOnce() -> String) -> Result<(), String> {
    if a == e {
        Ok(())
    } else {
        Err(format!("{}: got {a:?}, expected {e:?}", what()))
    }
}

/// Evaluates an expression with a value presented as owned, borrowed or mutably borrowed.
#[macro_export]
macro_rules! with_operand {
    ($kind:expr, $bv:expr, |$x:ident| $body:expr) => {{
        #[allow(unused_mut)]
        let mut owned = $bv.val();
        match $kind % 3 {
            0 => {
                let $x = &owned;
                $body
            }
            1 => {
                let r = baa::BitVecValueRef::from(&owned);
                let $x = &r;
                $body
            }
            _ => {
                let m = baa::BitVecValueMutRef::from(&mut owned);
                let $x = &m;
                $body
            }
        }
    }};
}
