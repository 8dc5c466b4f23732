//! C02-C06: operations on pairs of values against unbounded integers.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::with_operand;
use baa::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const MAXW: u32 = 2600;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PairCase {
    pub a: Bv,
    pub b: Bv,
    /// operand representation: 0 owned, 1 borrowed, 2 mutably borrowed
    pub ka: u8,
    pub kb: u8,
}

pub fn pair_case() -> BoxedStrategy<PairCase> {
    pair_case_of(width(MAXW))
}

fn pair_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<PairCase> {
    (pair_of(w), 0u8..3, 0u8..3).prop_map(|((a, b), ka, kb)| PairCase { a, b, ka, kb }).boxed()
}

pub fn width_labels(w: u32, obs: &mut Obs) {
    obs.label(match w {
        0 => "width 0",
        1 => "width 1",
        2..=63 => "width 2-63",
        64 => "width 64",
        65..=127 => "width 65-127",
        128 => "width 128",
        _ => "width >128",
    });
    obs.label_if(w > 0 && w % 64 == 0, "word-aligned width");
}

macro_rules! binop {
    ($c:expr, $op:ident, $exp:expr) => {
        with_operand!($c.ka, $c.a, |x| with_operand!($c.kb, $c.b, |y| {
            let r = BitVecOps::$op(x, y);
            expect(&r, &$exp, || format!("{}({:?}, {:?})", stringify!($op), $c.a, $c.b))?;
            if !same(x, &$c.a) || !same(y, &$c.b) {
                return Err(format!("{} changed an operand", stringify!($op)));
            }
            if $c.a == $c.b {
                // both operands are the same object
                let r = BitVecOps::$op(x, x);
                expect(&r, &$exp, || format!("{}(x, x) for x = {:?}", stringify!($op), $c.a))?;
            }
        }))
    };
}

// ------------------------------------------------------------------ C02

fn carries(a: &Bv, b: &Bv) -> bool {
    let mut c = false;
    let mut chain = 0;
    for (x, y) in a.x.iter().zip(&b.x) {
        let (s, o1) = x.overflowing_add(*y);
        let (_, o2) = s.overflowing_add(c as u64);
        c = o1 || o2;
        if c {
            chain += 1;
        }
    }
    chain >= 1
}

pub fn c02_check(c: &PairCase, obs: &mut Obs) -> Res {
    width_labels(c.a.w, obs);
    let carry = carries(&c.a, &c.b);
    obs.label_if(carry, "add carries out of a word");
    obs.label_if(c.a.u() < c.b.u(), "sub borrows out of the top");
    obs.nontrivial_if(!c.a.is_zero() && !c.b.is_zero());
    binop!(c, add, c.a.add(&c.b));
    binop!(c, sub, c.a.sub(&c.b));
    with_operand!(c.ka, c.a, |x| {
        expect(&x.negate(), &c.a.negate(), || format!("negate({:?})", c.a))?;
    });
    // operator forms on owned left operands
    let o = c.a.val();
    with_operand!(c.kb, c.b, |y| {
        expect(&(&o + y), &c.a.add(&c.b), || format!("{:?} + {:?}", c.a, c.b))?;
        expect(&(&o - y), &c.a.sub(&c.b), || format!("{:?} - {:?}", c.a, c.b))?;
    });
    if c.a == c.b {
        expect(&(&o + &o), &c.a.add(&c.b), || format!("x + x for x = {:?}", c.a))?;
        expect(&(&o - &o), &c.a.sub(&c.b), || format!("x - x for x = {:?}", c.a))?;
    }
    if !same(&o, &c.a) {
        return Err("operator changed its operand".into());
    }
    Ok(())
}

pub fn c02_mul(c: &PairCase, obs: &mut Obs) -> Res {
    width_labels(c.a.w, obs);
    obs.nontrivial_if(!c.a.is_zero() && !c.b.is_zero() && !c.a.is_one() && !c.b.is_one());
    obs.label_if((c.a.u() * c.b.u()).bits() > c.a.w as u64, "product exceeds the width");
    binop!(c, mul, c.a.mul(&c.b));
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        suites: vec![
            Box::new(Suite {
                name: "c02_add_sub_neg",
                rule: "pair of equal-width values (independent, equal, +-1, one bit/word apart, complement, \
                       negation), any operand representation; non-trivial: both operands non-zero",
                quick: 5_000_000,
                thorough: 80_000_000,
                strat: pair_case,
                check: c02_check,
            }),
            Box::new(Suite {
                name: "c02_mul",
                rule: "as c02_add_sub_neg; non-trivial: neither operand is 0 or 1",
                quick: 2_500_000,
                thorough: 40_000_000,
                strat: pair_case,
                check: c02_mul,
            }),
            Box::new(Suite {
                name: "c02_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 80_000,
                thorough: 1_200_000,
                strat: || pair_case_of(wide_width(140_000)),
                check: c02_check,
            }),
            Box::new(Suite {
                name: "c02_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || pair_case_of(huge_width()),
                check: c02_check,
            }),
            Box::new(Suite {
                name: "c02_mul_wide",
                rule: "the same on widths up to 20000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 40_000,
                thorough: 600_000,
                strat: || pair_case_of(wide_width(20_000)),
                check: c02_mul,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BitCase {
    pub p: PairCase,
    pub pos: Vec<u32>,
    pub m: u32,
}

fn bit_case() -> BoxedStrategy<BitCase> {
    bit_case_of(width(MAXW))
}

fn bit_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<BitCase> {
    (pair_case_of(w), proptest::collection::vec(any::<u32>(), 1..=6), 0u32..=64)
        .prop_map(|(p, ks, m)| {
            let pos = ks.iter().map(|k| pos_below(*k, p.a.w)).collect();
            BitCase { p, pos, m }
        })
        .boxed()
}

fn c03_check(c: &BitCase, obs: &mut Obs) -> Res {
    let p = &c.p;
    width_labels(p.a.w, obs);
    obs.nontrivial_if(p.a.x.iter().any(|w| *w != 0) && p.a != p.b);
    binop!(p, and, p.a.zip(&p.b, |x, y| x & y));
    binop!(p, or, p.a.zip(&p.b, |x, y| x | y));
    binop!(p, xor, p.a.zip(&p.b, |x, y| x ^ y));
    with_operand!(p.ka, p.a, |x| {
        expect(&x.not(), &p.a.not(), || format!("not({:?})", p.a))?;
        for i in &c.pos {
            expect_eq(x.is_bit_set(*i), p.a.bit(*i), || format!("is_bit_set({:?}, {i})", p.a))?;
        }
    });
    // in-place bit updates: owned, then through a mutable view, on the same contents
    let mut v = p.a.val();
    let mut m = p.a.clone();
    for (n, i) in c.pos.iter().enumerate() {
        let set = (p.ka as usize + n) % 2 == 0;
        m = m.with_bit(*i, set);
        if p.kb == 2 {
            let mut r = BitVecValueMutRef::from(&mut v);
            if set {
                r.set_bit(*i)
            } else {
                r.clear_bit(*i)
            }
        } else if set {
            v.set_bit(*i)
        } else {
            v.clear_bit(*i)
        }
        expect(&v, &m, || format!("{} bit {i} after {:?} of {:?}", if set { "set" } else { "clear" }, &c.pos[..n], p.a))?;
        expect_eq(v.is_bit_set(*i), set, || format!("is_bit_set({i}) after update"))?;
    }
    let expected_mask = if c.m == 0 || c.m == 64 { u64::MAX } else { (1u64 << c.m) - 1 };
    expect_eq(mask(c.m), expected_mask, || format!("mask({})", c.m))
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        suites: vec![
            Box::new(Suite {
                name: "c03_bitwise",
                rule: "pair of equal-width values and up to six bit positions biased to word boundaries; non-trivial: \
                       first operand non-zero and operands different",
                quick: 5_000_000,
                thorough: 80_000_000,
                strat: bit_case,
                check: c03_check,
        }),
            Box::new(Suite {
                name: "c03_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 160_000,
                thorough: 2_400_000,
                strat: || bit_case_of(wide_width(140_000)),
                check: c03_check,
            }),
            Box::new(Suite {
                name: "c03_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || bit_case_of(huge_width()),
                check: c03_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C04

/// shift amounts: mostly near and below the width, also huge
fn shift_case() -> BoxedStrategy<PairCase> {
    shift_case_of(width(MAXW))
}

fn shift_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<PairCase> {
    (w, raw(), raw(), 0u8..10, any::<u32>(), 0u8..3, 0u8..3)
        .prop_map(|(w, ra, rb, mode, k, ka, kb)| {
            let a = ra.at(w);
            let small = pos_below(k, w) as u64;
            let b = match mode {
                0..=4 => Bv::from_u64(w, small),
                5 => Bv::from_u64(w, w as u64 + (k as u64 % 5) - 2u64.min(w as u64)),
                6 => Bv::from_u64(w, (k as u64 % 70) * 64),
                7 => {
                    // small low word, something above it (or in its upper half)
                    let mut b = Bv::from_u64(w, small);
                    if b.x.len() > 1 {
                        let i = 1 + k as usize % (b.x.len() - 1);
                        b.x[i] = 1 << (k % 64);
                        b = Bv::new(w, b.x);
                    } else {
                        let hi = small | 1u64 << (32 + k % 32);
                        b = Bv::from_u64(w, hi);
                    }
                    b
                }
                8 => Bv::from_u64(w, small | (1 << 32)),
                _ => rb.at(w),
            };
            PairCase { a, b, ka, kb }
        })
        .boxed()
}

fn c04_check(c: &PairCase, obs: &mut Obs) -> Res {
    width_labels(c.a.w, obs);
    let over = c.b.u() >= c.a.w.into();
    obs.label_if(over, "amount >= width");
    obs.label_if(!over && !c.b.is_zero() && c.b.x[0] % 64 == 0, "amount multiple of 64");
    obs.label_if(c.b.x[1..].iter().any(|w| *w != 0), "amount needs several words");
    obs.label_if(c.a.neg(), "negative value");
    obs.nontrivial_if(!c.a.is_zero() && !c.b.is_zero());
    binop!(c, shift_left, c.a.shl(&c.b));
    binop!(c, shift_right, c.a.shr(&c.b));
    binop!(c, arithmetic_shift_right, c.a.sar(&c.b));
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        suites: vec![
            Box::new(Suite {
                name: "c04_shift",
                rule: "value and shift amount of equal width: below, around, at and far above the width, multiples of 64, \
                       amounts with a small low word and non-zero upper words; non-trivial: value and amount non-zero",
                quick: 5_000_000,
                thorough: 80_000_000,
                strat: shift_case,
                check: c04_check,
        }),
            Box::new(Suite {
                name: "c04_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 160_000,
                thorough: 2_400_000,
                strat: || shift_case_of(wide_width(140_000)),
                check: c04_check,
            }),
            Box::new(Suite {
                name: "c04_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || shift_case_of(huge_width()),
                check: c04_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StructCase {
    pub a: Bv,
    pub b: Bv,
    pub hi: u32,
    pub lo: u32,
    pub by: u32,
    pub ka: u8,
    pub kb: u8,
}

fn struct_case() -> BoxedStrategy<StructCase> {
    struct_case_of(width(1400), width(900), one_of![4 => 0u32..=130, 1 => width(1200)].boxed())
}

fn wide_struct_case() -> BoxedStrategy<StructCase> {
    struct_case_of(
        wide_width(140_000),
        one_of![1 => width(900), 1 => wide_width(140_000)].boxed(),
        one_of![1 => 0u32..=130, 1 => wide_width(140_000)].boxed(),
    )
}

fn huge_struct_case() -> BoxedStrategy<StructCase> {
    struct_case_of(
        huge_width(),
        one_of![1 => width(900), 1 => huge_width()].boxed(),
        one_of![1 => 0u32..=130, 1 => huge_width()].boxed(),
    )
}

fn struct_case_of(w: BoxedStrategy<u32>, w2: BoxedStrategy<u32>, by: BoxedStrategy<u32>) -> BoxedStrategy<StructCase> {
    (w, raw(), w2, raw(), any::<(u32, u32, u8)>(), by, 0u8..3, 0u8..3)
        .prop_map(|(w, ra, w2, rb, (k1, k2, m), by, ka, kb)| {
            let a = ra.at(w);
            let b = rb.at(w2);
            let (p, q) = (pos_below(k1, w), pos_below(k2, w));
            let (mut hi, mut lo) = (p.max(q), p.min(q));
            match m % 8 {
                0 => lo = hi,
                1 => hi = w - 1,
                2 => lo = 0,
                3 => hi = (lo + 63).min(w - 1),
                4 => hi = (lo + 64).min(w - 1),
                _ => {}
            }
            // sometimes extend exactly to / across a word boundary
            let by = if m & 0x60 == 0x20 { (64 - w % 64) % 64 + (by % 3) } else { by };
            StructCase { a, b, hi, lo, by, ka, kb }
        })
        .boxed()
}

fn c05_check(c: &StructCase, obs: &mut Obs) -> Res {
    width_labels(c.a.w, obs);
    let sw = c.hi - c.lo + 1;
    obs.label_if(c.hi / 64 != c.lo / 64, "slice crosses a word boundary");
    obs.label_if(sw > 64 && c.lo % 64 != 0, "unaligned multi-word slice");
    obs.label_if(c.b.w % 64 != 0 && c.a.w + c.b.w > 64, "unaligned concat over a word");
    obs.label_if(c.a.neg() && c.by > 0, "negative sign extension");
    obs.label_if(c.by == 0, "extension by 0");
    obs.nontrivial_if(!c.a.is_zero() && c.a.w > 1);
    with_operand!(c.ka, c.a, |x| {
        expect(&x.slice(c.hi, c.lo), &c.a.slice(c.hi, c.lo), || format!("slice({:?}, {}, {})", c.a, c.hi, c.lo))?;
        expect(&x.zero_extend(c.by), &c.a.zext(c.by), || format!("zero_extend({:?}, {})", c.a, c.by))?;
        expect(&x.sign_extend(c.by), &c.a.sext(c.by), || format!("sign_extend({:?}, {})", c.a, c.by))?;
        with_operand!(c.kb, c.b, |y| {
            expect(&x.concat(y), &c.a.concat(&c.b), || format!("concat({:?}, {:?})", c.a, c.b))?;
        });
        if c.hi % 8 == 0 && c.a.w < 1 << 20 {
            expect(&x.concat(x), &c.a.concat(&c.a), || format!("concat(x, x) for x = {:?}", c.a))?;
        }
        if !same(x, &c.a) {
            return Err("structural operation changed its operand".into());
        }
    });
    // metamorphic: cutting a concatenation gives the parts back, and re-joining the cut gives it whole
    let cat = c.a.val().concat(&c.b.val());
    expect(&cat.slice(c.b.w - 1, 0), &c.b, || "low part of a concatenation".into())?;
    expect(&cat.slice(c.a.w + c.b.w - 1, c.b.w), &c.a, || "high part of a concatenation".into())
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        suites: vec![
            Box::new(Suite {
                name: "c05_structure",
                rule: "two values of independent widths, slice bounds biased to word boundaries (single bit, full, one \
                       word, one word + 1), extension amounts 0.., exactly to a boundary; non-trivial: first value non-zero, wider than 1",
                quick: 4_000_000,
                thorough: 64_000_000,
                strat: struct_case,
                check: c05_check,
        }),
            Box::new(Suite {
                name: "c05_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 120_000,
                thorough: 1_800_000,
                strat: || wide_struct_case(),
                check: c05_check,
            }),
            Box::new(Suite {
                name: "c05_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || huge_struct_case(),
                check: c05_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C06

macro_rules! pred {
    ($x:expr, $y:expr, $c:expr, $op:ident, $exp:expr) => {
        expect_eq(BitVecOps::$op($x, $y), $exp, || format!("{}({:?}, {:?})", stringify!($op), $c.a, $c.b))?;
        if $c.a == $c.b {
            expect_eq(BitVecOps::$op($x, $x), $exp, || format!("{}(x, x) for x = {:?}", stringify!($op), $c.a))?
        }
    };
}

fn c06_check(c: &PairCase, obs: &mut Obs) -> Res {
    width_labels(c.a.w, obs);
    let (ua, ub, ia, ib) = (c.a.u(), c.b.u(), c.a.i(), c.b.i());
    obs.label_if(ua == ub, "equal operands");
    obs.label_if(ua == ub && c.a.w > 64, "equal multi-word operands");
    obs.label_if((ua < ub) != (ia < ib), "signed and unsigned order differ");
    let n = c.a.x.len();
    obs.label_if(n > 1 && ua != ub && c.a.x[1..] == c.b.x[1..], "differ only in the lowest word");
    obs.nontrivial_if(!c.a.is_zero() || !c.b.is_zero());
    with_operand!(c.ka, c.a, |x| with_operand!(c.kb, c.b, |y| {
        pred!(x, y, c, is_equal, ua == ub);
        pred!(x, y, c, is_not_equal, ua != ub);
        pred!(x, y, c, is_less, ua < ub);
        pred!(x, y, c, is_less_or_equal, ua <= ub);
        pred!(x, y, c, is_greater, ua > ub);
        pred!(x, y, c, is_greater_or_equal, ua >= ub);
        pred!(x, y, c, is_less_signed, ia < ib);
        pred!(x, y, c, is_less_or_equal_signed, ia <= ib);
        pred!(x, y, c, is_greater_signed, ia > ib);
        pred!(x, y, c, is_greater_or_equal_signed, ia >= ib);
    }));
    with_operand!(c.ka, c.a, |x| {
        expect_eq(x.is_zero(), c.a.is_zero(), || format!("is_zero({:?})", c.a))?;
        expect_eq(x.is_negative(), c.a.neg(), || format!("is_negative({:?})", c.a))?;
        expect_eq(x.is_tru(), c.a.w == 1 && c.a.x[0] == 1, || format!("is_tru({:?})", c.a))?;
        expect_eq(x.is_fals(), c.a.w == 1 && c.a.x[0] == 0, || format!("is_fals({:?})", c.a))?;
    });
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        suites: vec![
            Box::new(Suite {
                name: "c06_order",
                rule: "pair of equal-width values, often equal or differing in one bit/word or only below a word; \
                       non-trivial: not both zero",
                quick: 6_000_000,
                thorough: 96_000_000,
                strat: pair_case,
                check: c06_check,
        }),
            Box::new(Suite {
                name: "c06_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 160_000,
                thorough: 2_400_000,
                strat: || pair_case_of(wide_width(140_000)),
                check: c06_check,
            }),
            Box::new(Suite {
                name: "c06_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || pair_case_of(huge_width()),
                check: c06_check,
            }),
        ],
    }
}
