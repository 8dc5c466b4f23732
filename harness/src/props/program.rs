//! C01: programs over a pool of values, compared with unbounded-integer arithmetic after every step.

use super::inplace::{apply, upd};
use super::text::{numeral, radix_for};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use baa::*;
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    op: u8,
    a: u8,
    b: u8,
    /// where the result goes
    dst: u8,
    k: u32,
    raw: Raw,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    init: Vec<Bv>,
    steps: Vec<Step>,
}

/// widest value a program may build (or twice its widest initial value)
const MAX_W: u32 = 1500;
const POOL: usize = 8;

fn program(n_steps: std::ops::RangeInclusive<usize>, w: BoxedStrategy<u32>) -> BoxedStrategy<Program> {
    (
        proptest::collection::vec((w, raw()), 1..=3),
        proptest::collection::vec((any::<u8>(), raw()), 1..=5),
        proptest::collection::vec((0u8..OPS, any::<u8>(), any::<u8>(), any::<u8>(), any::<u32>(), raw()), n_steps),
    )
        .prop_map(|(ws, vs, steps)| Program {
            // few different widths, so that operands often meet at the same width
            init: vs
                .iter()
                .map(|(p, r)| r.at(ws[*p as usize % ws.len()].0))
                .chain(ws.iter().map(|(w, r)| r.at(*w)))
                .collect(),
            steps: steps.into_iter().map(|(op, a, b, dst, k, raw)| Step { op, a, b, dst, k, raw }).collect(),
        })
        .boxed()
}

const OPS: u8 = 38;

type Pair = (BitVecValue, Bv);

fn binary<A: BitVecOps, B: BitVecOps>(op: u8, x: &A, y: &B) -> BitVecValue {
    match op {
        0 => x.add(y),
        1 => x.sub(y),
        2 => x.mul(y),
        3 => x.and(y),
        4 => x.or(y),
        5 => x.xor(y),
        6 => x.shift_left(y),
        7 => x.shift_right(y),
        8 => x.arithmetic_shift_right(y),
        _ => x.concat(y),
    }
}

fn binary_model(op: u8, x: &Bv, y: &Bv) -> Bv {
    match op {
        0 => x.add(y),
        1 => x.sub(y),
        2 => x.mul(y),
        3 => x.zip(y, |a, b| a & b),
        4 => x.zip(y, |a, b| a | b),
        5 => x.zip(y, |a, b| a ^ b),
        6 => x.shl(y),
        7 => x.shr(y),
        8 => x.sar(y),
        _ => x.concat(y),
    }
}

fn unary<A: BitVecOps>(op: u8, x: &A, k: u32) -> BitVecValue {
    let w = x.width();
    match op {
        0 => x.not(),
        1 => x.negate(),
        2 => {
            let (p, q) = (pos_below(k, w), pos_below(k.rotate_left(13), w));
            x.slice(p.max(q), p.min(q))
        }
        3 => x.zero_extend(k % 140),
        4 => x.sign_extend(k % 140),
        _ => x.slice(w - 1, 0),
    }
}

fn unary_model(op: u8, x: &Bv, k: u32) -> Bv {
    match op {
        0 => x.not(),
        1 => x.negate(),
        2 => {
            let (p, q) = (pos_below(k, x.w), pos_below(k.rotate_left(13), x.w));
            x.slice(p.max(q), p.min(q))
        }
        3 => x.zext(k % 140),
        4 => x.sext(k % 140),
        _ => x.clone(),
    }
}

/// brings `p` to width `w` through the API
fn coerce(p: &Pair, w: u32, signed: bool) -> Pair {
    let (v, m) = p;
    if m.w == w {
        p.clone()
    } else if m.w > w {
        (v.slice(w - 1, 0), m.slice(w - 1, 0))
    } else if signed {
        (v.sign_extend(w - m.w), m.sext(w - m.w))
    } else {
        (v.zero_extend(w - m.w), m.zext(w - m.w))
    }
}

fn comparisons(x: &Pair, y: &Pair, ctx: &dyn Fn() -> String) -> Res {
    let (a, b) = (&x.0, &y.0);
    let (ua, ub) = (x.1.u(), y.1.u());
    let (ia, ib) = (x.1.i(), y.1.i());
    for (what, got, e) in [
        ("==", a == b, ua == ub),
        ("is_equal", a.is_equal(b), ua == ub),
        ("is_not_equal", a.is_not_equal(b), ua != ub),
        ("is_less", a.is_less(b), ua < ub),
        ("is_less_or_equal", a.is_less_or_equal(b), ua <= ub),
        ("is_greater", a.is_greater(b), ua > ub),
        ("is_greater_or_equal", a.is_greater_or_equal(b), ua >= ub),
        ("is_less_signed", a.is_less_signed(b), ia < ib),
        ("is_less_or_equal_signed", a.is_less_or_equal_signed(b), ia <= ib),
        ("is_greater_signed", a.is_greater_signed(b), ia > ib),
        ("is_greater_or_equal_signed", a.is_greater_or_equal_signed(b), ia >= ib),
    ] {
        expect_eq(got, e, || format!("{}: {what} of {:?} and {:?}", ctx(), x.1, y.1))?;
    }
    Ok(())
}

fn observe(x: &Pair, ctx: &dyn Fn() -> String) -> Res {
    let (v, m) = x;
    let what = |f: &str| format!("{}: {f} of {m:?}", ctx());
    expect_eq(v.to_u64(), m.u().to_u64(), || what("to_u64"))?;
    expect_eq(v.to_i64(), m.i().to_i64(), || what("to_i64"))?;
    expect_eq(v.to_big_uint(), m.u(), || what("to_big_uint"))?;
    expect_eq(v.to_big_int(), m.i(), || what("to_big_int"))?;
    expect_eq(v.is_zero(), m.is_zero(), || what("is_zero"))?;
    expect_eq(v.is_negative(), m.neg(), || what("is_negative"))?;
    expect_eq(v.to_bool(), (m.w == 1).then(|| !m.is_zero()), || what("to_bool"))
}

fn c01_check(c: &Program, obs: &mut Obs) -> Res {
    let mut pool: Vec<Pair> = c.init.iter().map(|b| (b.val(), b.clone())).collect();
    let mut interner = ValueInterner::new();
    let mut interned: Vec<(BitVecValueIndex, Bv)> = vec![];
    let max_w = MAX_W.max(2 * c.init.iter().map(|b| b.w).max().unwrap_or(1));
    let (mut wide, mut computed, mut nonzero) = (false, 0, 0);
    for (n, s) in c.steps.iter().enumerate() {
        let (ia, ib) = (s.a as usize % pool.len(), s.b as usize % pool.len());
        let ctx = || format!("step {n} ({s:?}) of {c:?}");
        let x = pool[ia].clone();
        let w = x.1.w;
        wide |= w > 64;
        let mut result: Option<Pair> = None;
        match s.op {
            0..=16 => {
                // 0-8: binary operations, 9: concatenation, 10-16: shifts, additions, products again
                let op = match s.op {
                    10 | 11 => 6,
                    12 => 7,
                    13 => 8,
                    14 => 0,
                    15 => 2,
                    16 => 1,
                    o => o,
                };
                let mut y = pool[ib].clone();
                if op == 2 && w > QUADRATIC {
                    continue;
                }
                if op == 9 {
                    if w + y.1.w > max_w {
                        continue;
                    }
                } else {
                    y = coerce(&y, w, s.k & 1 == 1);
                    expect(&y.0, &y.1, || format!("{}: operand brought to width {w}", ctx()))?;
                    if (6..=8).contains(&op) && s.k & 0x30 != 0 {
                        // mostly amounts around the width
                        let amount = Bv::from_u64(w, ((s.k >> 8) % (w + 3)) as u64);
                        y = (amount.val(), amount);
                    }
                }
                let m = binary_model(op, &x.1, &y.1);
                let r = match s.k >> 1 & 3 {
                    0 => binary(op, &x.0, &y.0),
                    1 => binary(op, &BitVecValueRef::from(&x.0), &y.0),
                    2 => binary(op, &x.0, &BitVecValueRef::from(&y.0)),
                    _ if op == 0 => &x.0 + &y.0,
                    _ if op == 1 => &x.0 - &y.0,
                    _ => {
                        let (mut p, mut q) = (x.0.clone(), y.0.clone());
                        binary(op, &BitVecValueMutRef::from(&mut p), &BitVecValueMutRef::from(&mut q))
                    }
                };
                expect(&y.0, &y.1, || format!("{}: right operand afterwards", ctx()))?;
                result = Some((r, m));
            }
            17..=22 => {
                let op = s.op - 17;
                if (op == 3 || op == 4) && w + 140 > max_w {
                    continue;
                }
                let r = match s.k % 3 {
                    0 => unary(op, &x.0, s.k),
                    1 => unary(op, &BitVecValueRef::from(&x.0), s.k),
                    _ => unary(op, &BitVecValueMutRef::from(&mut x.0.clone()), s.k),
                };
                result = Some((r, unary_model(op, &x.1, s.k)));
            }
            23 => comparisons(&x, &coerce(&pool[ib], w, s.k & 1 == 1), &ctx)?,
            24 => observe(&x, &ctx)?,
            25 => {
                // bytes, with a width of their own
                let bytes = x.0.to_bytes_le();
                let nw = (w + s.k % 70).saturating_sub(35).max(1);
                let keep = (nw.div_ceil(8) as usize).min(bytes.len());
                let e = Bv::new(nw, x.1.resize(keep as u32 * 8).x);
                result = Some((BitVecValue::from_bytes_le(&bytes[..keep], nw), e));
            }
            26 => {
                let nw = (w + s.k % 200).saturating_sub(100).max(1);
                result = Some(if s.k & 0x100 == 0 {
                    (BitVecValue::from_big_int(&x.0.to_big_int(), nw), Bv::from_i(nw, &x.1.i()))
                } else {
                    (BitVecValue::from_big_uint(&x.0.to_big_uint(), nw), Bv::from_u(nw, &x.1.u()))
                });
            }
            27 => {
                let radix = radix_for(w, (s.k >> 8) as u8);
                let num = if s.k & 1 == 1 { x.1.i() } else { BigInt::from(x.1.u()) };
                let text = numeral(&num, radix, s.k as usize >> 20 & 7, s.raw.style, s.k & 2 == 2);
                let r = BitVecValue::from_str_radix(&text, radix, w).map_err(|e| format!("{}: {text:?}: {:?}", ctx(), e.kind))?;
                result = Some((r, x.1.clone()));
            }
            28 => {
                // renderings that carry their width
                let (text, bits) = if s.k & 1 == 0 { (x.0.to_bit_str(), 1) } else { (x.0.to_hex_str(), 4) };
                let r = if bits == 1 { BitVecValue::from_bit_str(&text) } else { BitVecValue::from_hex_str(&text) };
                let r = r.map_err(|e| format!("{}: {text:?}: {:?}", ctx(), e.kind))?;
                result = Some((r, x.1.resize(w.div_ceil(bits) * bits)));
            }
            29 => {
                let r = s.raw.at(w.min(64));
                result = Some(match s.k % 5 {
                    0 => (BitVecValue::from_u64(r.x[0], w), Bv::from_u64(w, r.x[0])),
                    1 => (BitVecValue::from_i64(r.i().to_i64().unwrap(), w), Bv::from_i(w, &r.i())),
                    2 => (BitVecValue::zero(w), Bv::zero(w)),
                    3 => (BitVecValue::ones(w), Bv::ones(w)),
                    _ => (BitVecValue::from_bool(s.k & 0x100 == 0), Bv::from_u64(1, (s.k & 0x100 == 0) as u64)),
                });
            }
            30 => {
                let ix = interner.get_index(&x.0);
                interned.push((ix, x.1.clone()));
                let (old, e) = interned[s.k as usize % interned.len()].clone();
                result = Some((BitVecValue::from(interner.words().get_ref(old)), e));
            }
            31 => {
                // through an array element
                let y = coerce(&pool[ib], w, false);
                let iw = s.k % 5;
                let i = BitVecValue::zero(iw.max(1)).slice(iw.max(1) - 1, 0);
                let mut a = if s.k & 0x10 == 0 { ArrayValue::new_sparse(iw.max(1), &y.0) } else { ArrayValue::new_dense(iw.max(1), &y.0) };
                a.store(&i, &x.0);
                if s.k & 0x20 == 0 {
                    a.make_dense();
                }
                expect(&a.select(&Bv::ones(iw.max(1)).val()), &y.1, || format!("{}: other array element", ctx()))?;
                result = Some((a.select(&i), x.1.clone()));
            }
            _ => {
                // in place, on the pool entry itself or through a view of it
                let e = if s.op >= 36 {
                    let y = coerce(&pool[ib], w, s.k & 1 == 1);
                    let t = &mut pool[ia].0;
                    if s.k & 2 == 0 {
                        t.assign(&y.0);
                    } else {
                        BitVecValueMutRef::from(t).assign(BitVecValueRef::from(&y.0));
                    }
                    Some(y.1)
                } else {
                    let u = upd(s.b, s.k, &s.raw, w);
                    let t = &mut pool[ia].0;
                    if s.dst & 1 == 0 {
                        apply(t, &x.1, &u)?
                    } else {
                        apply(&mut BitVecValueMutRef::from(t), &x.1, &u)?
                    }
                };
                let got = &pool[ia].0;
                match e {
                    Some(e) => {
                        expect(got, &e, ctx)?;
                        pool[ia].1 = e;
                    }
                    None => {
                        let e = Bv::new(w, got.words().to_vec());
                        expect(got, &e, || format!("{}: canonical after a refused update", ctx()))?;
                        pool[ia].1 = e;
                    }
                }
                // the copy taken before the update must not have changed
                expect(&x.0, &x.1, || format!("{}: earlier copy of the updated value", ctx()))?;
                continue;
            }
        }
        expect(&pool[ia].0, &pool[ia].1, || format!("{}: operand afterwards", ctx()))?;
        if let Some((r, e)) = result {
            expect(&r, &e, ctx)?;
            computed += 1;
            nonzero += !e.is_zero() as u32;
            if pool.len() < POOL {
                pool.push((r, e));
            } else {
                let d = s.dst as usize % pool.len();
                pool[d] = (r, e);
            }
        }
    }
    for (i, (v, m)) in pool.iter().enumerate() {
        expect(v, m, || format!("value {i} at the end of {c:?}"))?;
        expect_eq(*v == m.val(), true, || format!("value {i} ({m:?}) compares equal to a fresh copy at the end of {c:?}"))?;
    }
    obs.label_if(wide, "wider than a word");
    obs.label_if(pool.iter().any(|(_, m)| m.w > 128), "wider than two words");
    obs.label_if(computed >= 5, "five or more computed values");
    obs.nontrivial_if(computed >= 2 && nonzero >= 1);
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        suites: vec![
            Box::new(Suite {
                name: "c01_programs",
                rule: "programs of 1-12 steps (38 kinds: arithmetic, bitwise, shifts, slices, concatenation, extensions, conversions through \
                       bytes, integers, text, interner and arrays, in-place updates, views) over up to 8 values, compared with unbounded \
                       arithmetic after every step and re-read at the end; non-trivial: two or more computed values, one of them non-zero",
                quick: 1_500_000,
                thorough: 24_000_000,
                strat: || program(1..=12, width(700)),
                check: c01_check,
            }),
            Box::new(Suite {
                name: "c01_long",
                rule: "the same with 20-60 steps",
                quick: 200_000,
                thorough: 3_200_000,
                strat: || program(20..=60, width(700)),
                check: c01_check,
            }),
            Box::new(Suite {
                name: "c01_wide",
                rule: "the same as c01_programs with initial widths up to 20000",
                quick: 24_000,
                thorough: 360_000,
                strat: || program(1..=12, wide_width(20_000)),
                check: c01_check,
            }),
            Box::new(Suite {
                name: "c01_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || program(1..=12, huge_width()),
                check: c01_check,
            }),
        ],
    }
}
