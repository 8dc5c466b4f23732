//! C08-C11: conversions from and to integers, bytes, big integers and fractions.

use super::arith::width_labels;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::with_operand;
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    v: Bv,
    k: u8,
    /// width of a fresh value, an unsigned and a signed integer that fit it
    w: u32,
    u: u64,
    i: i64,
}

fn fit_u(r: &Bv) -> u64 {
    r.x[0]
}
fn fit_i(r: &Bv) -> i64 {
    if r.w >= 64 {
        r.x[0] as i64
    } else {
        r.i().to_i64().unwrap()
    }
}

fn int_case() -> BoxedStrategy<IntCase> {
    int_case_of(width0(1000), width(700))
}

fn int_case_of(vw: BoxedStrategy<u32>, w: BoxedStrategy<u32>) -> BoxedStrategy<IntCase> {
    (vw, raw(), 0u8..5, raw(), 0u8..3, w, raw(), raw())
        .prop_map(|(vw, r, mode, rs, k, w, ru, ri)| {
            // values that are representable in 64 bits (either sign) must be frequent at every width
            let v = match mode {
                0 => r.at(vw),
                1 => Bv::from_u64(vw, rs.at(64).x[0]),
                2 if vw > 0 => Bv::from_i(vw, &BigInt::from(rs.at(64).x[0] as i64)),
                3 if vw > 0 => {
                    // just outside the 64-bit ranges
                    let d = BigInt::from(rs.k % 5) - 2;
                    let e = BigInt::from(1) << if rs.k & 0x100 == 0 { 63u32 } else { 64 };
                    let e = if rs.k & 0x200 == 0 { e } else { -e };
                    Bv::from_i(vw, &(e + d))
                }
                _ => r.at(vw),
            };
            let (u, i) = (fit_u(&ru.at(w)), fit_i(&ri.at(w.min(64))));
            IntCase { v, k, w, u, i }
        })
        .boxed()
}

fn c08_check(c: &IntCase, obs: &mut Obs) -> Res {
    width_labels(c.v.w, obs);
    let (u, i) = (c.v.u(), c.v.i());
    let (eu, ei) = (u.to_u64(), i.to_i64());
    obs.label_if(c.v.w > 64 && c.v.neg() && ei.is_some(), "wide negative representable in i64");
    obs.label_if(eu.is_none(), "not representable unsigned");
    obs.label_if(c.w > 64 && c.i < 0, "negative into wide value");
    obs.nontrivial_if(!c.v.is_zero() && c.v.w > 1);
    with_operand!(c.k, c.v, |x| {
        expect_eq(x.to_u64(), eu, || format!("to_u64({:?})", c.v))?;
        expect_eq(x.to_i64(), ei, || format!("to_i64({:?})", c.v))?;
        let eb = if c.v.w == 1 { Some(c.v.x[0] == 1) } else { None };
        expect_eq(x.to_bool(), eb, || format!("to_bool({:?})", c.v))?;
    });
    let eu = Bv::from_u64(c.w, c.u);
    let ei = Bv::from_i(c.w, &BigInt::from(c.i));
    let fu = BitVecValue::from_u64(c.u, c.w);
    let fi = BitVecValue::from_i64(c.i, c.w);
    expect(&fu, &eu, || format!("from_u64({}, {})", c.u, c.w))?;
    expect(&fi, &ei, || format!("from_i64({}, {})", c.i, c.w))?;
    expect_eq(fu.to_u64(), Some(c.u), || format!("u64 round trip of {} at width {}", c.u, c.w))?;
    expect_eq(fi.to_i64(), Some(c.i), || format!("i64 round trip of {} at width {}", c.i, c.w))?;
    for b in [false, true] {
        let e = Bv::from_u64(1, b as u64);
        expect(&BitVecValue::from_bool(b), &e, || format!("from_bool({b})"))?;
        expect(&BitVecValue::from(b), &e, || format!("From<bool>({b})"))?;
        expect(&if b { BitVecValue::tru() } else { BitVecValue::fals() }, &e, || "tru/fals".into())?;
    }
    expect(&BitVecValue::zero(c.w), &Bv::zero(c.w), || format!("zero({})", c.w))?;
    expect(&BitVecValue::ones(c.w), &Bv::ones(c.w), || format!("ones({})", c.w))
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        suites: vec![
            Box::new(Suite {
                name: "c08_machine_ints",
                rule: "a value (random; zero/sign-extended 64-bit; around +-2^63, +-2^64) to read, and a width with fitting \
                       integers to create; non-trivial: value non-zero and wider than 1",
                quick: 6_000_000,
                thorough: 96_000_000,
                strat: int_case,
                check: c08_check,
        }),
            Box::new(Suite {
                name: "c08_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 160_000,
                thorough: 2_400_000,
                strat: || int_case_of(wide_width(140_000), wide_width(140_000)),
                check: c08_check,
            }),
            Box::new(Suite {
                name: "c08_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || int_case_of(huge_width(), huge_width()),
                check: c08_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BytesCase {
    v: Bv,
    k: u8,
    w: u32,
    bytes: Vec<u8>,
}

fn bytes_case() -> BoxedStrategy<BytesCase> {
    bytes_case_of(bv0(1500), width0(1500))
}

fn bytes_case_of(v: BoxedStrategy<Bv>, w: BoxedStrategy<u32>) -> BoxedStrategy<BytesCase> {
    (v, 0u8..3, w, raw(), any::<u32>(), any::<bool>())
        .prop_map(|(v, k, w, r, n, full)| {
            let max = (w as usize).div_ceil(8);
            let len = if full || max == 0 { max } else { n as usize % (max + 1) };
            // may have bits at or above w
            let src = r.at(((len as u32) * 8).max(1));
            let bytes = (0..len).map(|i| (src.x[i / 8] >> (8 * (i % 8))) as u8).collect();
            BytesCase { v, k, w, bytes }
        })
        .boxed()
}

fn c09_check(c: &BytesCase, obs: &mut Obs) -> Res {
    width_labels(c.v.w, obs);
    let num = BigUint::from_bytes_le(&c.bytes);
    obs.label_if(c.bytes.len() < (c.w as usize).div_ceil(8), "fewer bytes than the width");
    obs.label_if(num.bits() > c.w as u64, "bits above the width");
    obs.nontrivial_if(num.bits() > 8);
    let e = Bv::from_u(c.w, &num);
    expect(&BitVecValue::from_bytes_le(&c.bytes, c.w), &e, || format!("from_bytes_le({:?}, {})", c.bytes, c.w))?;
    with_operand!(c.k, c.v, |x| {
        let out = x.to_bytes_le();
        expect_eq(out.len(), (c.v.w as usize).div_ceil(8), || format!("number of bytes of {:?}", c.v))?;
        let exp: Vec<u8> = (0..out.len()).map(|i| (c.v.x[i / 8] >> (8 * (i % 8))) as u8).collect();
        expect_eq(&out, &exp, || format!("to_bytes_le({:?})", c.v))?;
        expect(&BitVecValue::from_bytes_le(&out, c.v.w), &c.v, || format!("byte round trip of {:?}", c.v))?;
    });
    Ok(())
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        suites: vec![
            Box::new(Suite {
                name: "c09_bytes",
                rule: "a value to export and a width with 0..=ceil(w/8) bytes to import (bits above the width possible); \
                       non-trivial: imported number longer than 8 bits",
                quick: 5_000_000,
                thorough: 80_000_000,
                strat: bytes_case,
                check: c09_check,
        }),
            Box::new(Suite {
                name: "c09_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 120_000,
                thorough: 1_800_000,
                strat: || bytes_case_of(wide_bv(140_000), wide_width(140_000)),
                check: c09_check,
            }),
            Box::new(Suite {
                name: "c09_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || bytes_case_of(huge_bv(), huge_width()),
                check: c09_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigCase {
    v: Bv,
    k: u8,
    w: u32,
    mag: Bv,
    neg: bool,
}

fn big_case() -> BoxedStrategy<BigCase> {
    big_case_of(bv0(1500), width(1500))
}

fn big_case_of(v: BoxedStrategy<Bv>, w: BoxedStrategy<u32>) -> BoxedStrategy<BigCase> {
    (v, 0u8..3, w.clone(), raw(), any::<bool>(), 0u8..4, w)
        .prop_map(|(v, k, w, r, neg, mode, mw)| {
            // magnitude of about the target width, or unrelated
            let mag_w = match mode {
                0 => w,
                1 => w + 1,
                2 => (w - 1).max(1),
                _ => mw,
            };
            BigCase { v, k, w, mag: r.at(mag_w), neg }
        })
        .boxed()
}

fn c10_check(c: &BigCase, obs: &mut Obs) -> Res {
    width_labels(c.v.w, obs);
    let mag = c.mag.u();
    let int = BigInt::from_biguint(if c.neg { Sign::Minus } else { Sign::Plus }, mag.clone());
    obs.label_if(mag.bits() > c.w as u64, "does not fit the width");
    obs.label_if(int.sign() == Sign::Minus, "negative");
    obs.label_if(c.v.neg(), "negative value read");
    obs.nontrivial_if(mag.bits() > 1 && c.v.w > 1);
    with_operand!(c.k, c.v, |x| {
        expect_eq(x.to_big_uint(), c.v.u(), || format!("to_big_uint({:?})", c.v))?;
        expect_eq(x.to_big_int(), c.v.i(), || format!("to_big_int({:?})", c.v))?;
    });
    if c.v.w > 0 {
        expect(&BitVecValue::from_big_int(&c.v.i(), c.v.w), &c.v, || format!("big int round trip of {:?}", c.v))?;
        expect(&BitVecValue::from_big_uint(&c.v.u(), c.v.w), &c.v, || format!("big uint round trip of {:?}", c.v))?;
    }
    expect(&BitVecValue::from_big_uint(&mag, c.w), &Bv::from_u(c.w, &mag), || format!("from_big_uint({mag}, {})", c.w))?;
    expect(&BitVecValue::from_big_int(&int, c.w), &Bv::from_i(c.w, &int), || format!("from_big_int({int}, {})", c.w))?;
    let a = BitVecValue::from(&mag);
    expect(&a, &Bv::from_u(a.width(), &mag), || format!("From<&BigUint>({mag})"))?;
    expect_eq(a.to_big_uint(), mag.clone(), || format!("inferred width of {mag}"))?;
    let b = BitVecValue::from(&int);
    expect(&b, &Bv::from_i(b.width(), &int), || format!("From<&BigInt>({int})"))?;
    expect_eq(b.to_big_int(), int.clone(), || format!("inferred width of {int}"))
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        suites: vec![
            Box::new(Suite {
                name: "c10_bigint",
                rule: "a value to read, and an integer of either sign (about the target width, one bit more or less, or \
                       unrelated) to convert; non-trivial: magnitude above 1, read value wider than 1",
                quick: 4_000_000,
                thorough: 64_000_000,
                strat: big_case,
                check: c10_check,
        }),
            Box::new(Suite {
                name: "c10_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 80_000,
                thorough: 1_200_000,
                strat: || big_case_of(wide_bv(140_000), wide_width(140_000)),
                check: c10_check,
            }),
            Box::new(Suite {
                name: "c10_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || big_case_of(huge_bv(), huge_width()),
                check: c10_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FracCase {
    v: Bv,
    f: u32,
    k: u8,
}

fn frac_case() -> BoxedStrategy<FracCase> {
    frac_case_of(one_of![4 => 1u32..=64, 1 => Just(64u32), 2 => width(400)].boxed())
}

fn frac_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<FracCase> {
    (w, raw(), 0u8..4, raw(), any::<u32>(), 0u8..3)
        .prop_map(|(w, r, mode, rs, kf, k)| {
            let v = match mode {
                0 => Bv::from_u64(w, rs.at(64).x[0]),
                1 => Bv::from_i(w, &BigInt::from(rs.at(64).x[0] as i64)),
                _ => r.at(w),
            };
            let f = match kf & 7 {
                0 => w,
                1 => w.min(64),
                2 => w.min(63),
                3 => w.min(65),
                _ => (kf >> 3) % (w + 1),
            };
            FracCase { v, f, k }
        })
        .boxed()
}

fn check_fraction(r: Option<fraction::Fraction>, v: &BigInt, c: &FracCase, what: &str) -> Res {
    match r {
        None if c.v.w <= 64 && c.f <= 63 => Err(format!("{what}({:?}, {}) refused to convert", c.v, c.f)),
        None => Ok(()),
        Some(q) => {
            let (Some(n), Some(d), Some(s)) = (q.numer(), q.denom(), q.sign()) else {
                return Err(format!("{what}({:?}, {}) is not a number: {q:?}", c.v, c.f));
            };
            let negative = s == fraction::Sign::Minus && *n != 0;
            // n/d == |v| / 2^f
            let lhs = BigUint::from(*n) << c.f;
            let rhs = v.magnitude() * BigUint::from(*d);
            if lhs != rhs || negative != (v.sign() == Sign::Minus) {
                return Err(format!("{what}({:?}, {}): got {q:?}, expected {v}/2^{}", c.v, c.f, c.f));
            }
            Ok(())
        }
    }
}

fn c11_check(c: &FracCase, obs: &mut Obs) -> Res {
    width_labels(c.v.w, obs);
    obs.label_if(c.v.neg(), "negative");
    obs.label_if(c.f >= 64, "fraction width of 64 or more");
    obs.label_if(c.v.w > 64, "wider than 64 bits");
    obs.nontrivial_if(!c.v.is_zero() && c.f > 0);
    with_operand!(c.k, c.v, |x| {
        check_fraction(x.to_unsigned_fixed_point(c.f), &BigInt::from(c.v.u()), c, "to_unsigned_fixed_point")?;
        check_fraction(x.to_signed_fixed_point(c.f), &c.v.i(), c, "to_signed_fixed_point")?;
    });
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        suites: vec![
            Box::new(Suite {
                name: "c11_fixed_point",
                rule: "a value (mostly at most 64 bits) and a fraction width 0..=w incl. 63, 64, w; non-trivial: value \
                       non-zero, fraction width > 0",
                quick: 7_500_000,
                thorough: 120_000_000,
                strat: frac_case,
                check: c11_check,
        }),
            Box::new(Suite {
                name: "c11_wide",
                rule: "the same on widths up to 5000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 800_000,
                thorough: 12_000_000,
                strat: || frac_case_of(wide_width(5000)),
                check: c11_check,
            }),
        ],
    }
}
