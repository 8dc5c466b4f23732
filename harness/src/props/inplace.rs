//! C15: in-place update histories; C21: views into shared word stores.

use super::arith::width_labels;
use super::text::{numeral, radix_for};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use baa::*;
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Upd {
    Assign(Bv, u8),
    AssignU64(u64),
    AssignI64(i64),
    /// number to write, radix, leading zeros, letter case, plus sign
    AssignText(Bv, bool, u32, u8, u64, bool),
    BadText(String, u32),
    Clear,
    Ones,
    SetBit(u32),
    ClearBit(u32),
    /// raw words, then mask
    Words(Vec<u64>),
    MaskOnly,
}

pub fn upd(op: u8, k: u32, r: &Raw, w: u32) -> Upd {
    let u = |r: &Raw| r.at(w).x[0];
    match op % 16 {
        0 | 1 => Upd::Assign(r.at(w), (k % 2) as u8),
        2 => Upd::AssignU64(u(r)),
        3 | 4 => {
            let v = r.at(w.min(64));
            Upd::AssignI64(v.i().to_i64().unwrap())
        }
        5 | 6 => Upd::AssignText(r.at(w), k & 1 == 1, radix_for(w, (k >> 1) as u8), if k & 0x1000 == 0 { 0 } else { (k >> 16) as u8 % 70 }, r.style, k & 0x2000 != 0),
        7 => {
            let t = ["x", "-", "12z", "+", "1 0", "--1", "0x1", "", "\u{e9}"][k as usize % 9].to_string();
            Upd::BadText(t, [2, 10, 16][(k >> 8) as usize % 3])
        }
        8 => Upd::Clear,
        9 => Upd::Ones,
        10 | 11 => Upd::SetBit(pos_below(k, w)),
        12 | 13 => Upd::ClearBit(pos_below(k, w)),
        14 => Upd::Words((0..nwords(w)).map(|i| r.words[i % r.words.len()].rotate_left(i as u32)).collect()),
        _ => Upd::MaskOnly,
    }
}

/// Applies an update; `Ok(None)` means contents are unspecified afterwards.
pub fn apply<T: BitVecMutOps>(t: &mut T, m: &Bv, u: &Upd) -> Result<Option<Bv>, String> {
    let w = m.w;
    Ok(Some(match u {
        Upd::Assign(v, k) => {
            let src = v.val();
            if *k == 0 {
                t.assign(&src);
            } else {
                t.assign(BitVecValueRef::from(&src));
            }
            expect(&src, v, || "source of an assignment".into())?;
            v.clone()
        }
        Upd::AssignU64(x) => {
            t.assign_from_u64(*x);
            Bv::from_u64(w, *x)
        }
        Upd::AssignI64(x) => {
            t.assign_from_i64(*x);
            Bv::from_i(w, &BigInt::from(*x))
        }
        Upd::AssignText(v, neg, radix, zeros, case, plus) => {
            let num = if *neg && v.neg() { v.i() } else { BigInt::from(v.u()) };
            let text = numeral(&num, *radix, *zeros as usize, *case, *plus);
            if let Err(e) = t.assign_from_str_radix(&text, *radix) {
                return Err(format!("assign_from_str_radix({text:?}, {radix}) at width {w}: {:?}", e.kind));
            }
            v.clone()
        }
        Upd::BadText(text, radix) => {
            if t.assign_from_str_radix(text, *radix).is_ok() && !text.is_empty() {
                return Err(format!("assign_from_str_radix accepted {text:?}"));
            }
            return Ok(None);
        }
        Upd::Clear => {
            t.clear();
            Bv::zero(w)
        }
        Upd::Ones => {
            t.assign_ones();
            Bv::ones(w)
        }
        Upd::SetBit(i) => {
            t.set_bit(*i);
            m.with_bit(*i, true)
        }
        Upd::ClearBit(i) => {
            t.clear_bit(*i);
            m.with_bit(*i, false)
        }
        Upd::Words(x) => {
            t.words_mut().copy_from_slice(x);
            t.mask_msb();
            Bv::new(w, x.clone())
        }
        Upd::MaskOnly => {
            t.mask_msb();
            m.clone()
        }
    }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UpdCase {
    start: Bv,
    ups: Vec<Upd>,
    /// owned, view of an owned value, or view into a store (per step)
    mode: u8,
    seed: u64,
}

fn upd_case() -> BoxedStrategy<UpdCase> {
    upd_case_of(width(800))
}

fn upd_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<UpdCase> {
    (w, raw(), proptest::collection::vec((any::<u8>(), any::<u32>(), raw()), 1..=8), 0u8..4, any::<u64>())
        .prop_map(|(w, r, ops, mode, seed)| UpdCase {
            start: r.at(w),
            ups: ops.iter().map(|(o, k, r)| upd(*o, *k, r, w)).collect(),
            mode,
            seed,
        })
        .boxed()
}

fn c15_check(c: &UpdCase, obs: &mut Obs) -> Res {
    let w = c.start.w;
    let n = nwords(w);
    width_labels(w, obs);
    obs.label(["owned", "view of an owned value", "view into a store", "alternating"][c.mode as usize % 4]);
    let guard = c.seed | 1;
    let mut m = c.start.clone();
    let mut owned = c.start.val();
    let mut store: Vec<u64> = vec![guard; n + 3];
    store[1..1 + n].copy_from_slice(&m.x);
    let idx = BitVecValueIndex::new(1, w);
    let mut specified = 0;
    for (i, u) in c.ups.iter().enumerate() {
        let mode = if c.mode == 3 { ((i as u64 + c.seed % 3) % 3) as u8 } else { c.mode };
        let r = match mode {
            0 => apply(&mut owned, &m, u)?,
            1 => apply(&mut BitVecValueMutRef::from(&mut owned), &m, u)?,
            _ => {
                let mut v: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(idx);
                let r = apply(&mut v, &m, u)?;
                expect_eq(v.width(), w, || "width of the view".into())?;
                r
            }
        };
        let got = match mode {
            0 | 1 => owned.clone(),
            _ => BitVecValue::from(store.as_slice().get_ref(idx)),
        };
        let ctx = || format!("step {i} ({u:?}) of {c:?}");
        match r {
            Some(e) => {
                specified += 1;
                expect(&got, &e, ctx)?;
                m = e;
            }
            None => {
                if got.width() != w || Bv::new(w, got.words().to_vec()).x != got.words() {
                    return Err(format!("{}: not canonical: {}", ctx(), show(&got)));
                }
                m = Bv::new(w, got.words().to_vec());
            }
        }
        if store[0] != guard || store[1 + n..].iter().any(|x| *x != guard) {
            return Err(format!("{}: neighbouring words changed", ctx()));
        }
        // keep both homes in step
        if mode <= 1 {
            store[1..1 + n].copy_from_slice(&m.x);
        } else {
            owned = m.val();
        }
    }
    obs.nontrivial_if(specified >= 2 && !c.start.is_zero());
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        suites: vec![
            Box::new(Suite {
                name: "c15_updates",
                rule: "histories of 1-8 in-place updates from any contents, on an owned value, a view of it, a view into a word \
                       store between guard words, or alternating; non-trivial: start non-zero, at least two specified updates",
                quick: 2_000_000,
                thorough: 32_000_000,
                strat: upd_case,
                check: c15_check,
        }),
            Box::new(Suite {
                name: "c15_wide",
                rule: "the same on widths up to 20000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 60_000,
                thorough: 900_000,
                strat: || upd_case_of(wide_width(20_000)),
                check: c15_check,
            }),
            Box::new(Suite {
                name: "c15_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || upd_case_of(huge_width()),
                check: c15_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Region {
    at: u32,
    w: u32,
}

impl Region {
    fn range(&self) -> std::ops::Range<usize> {
        self.at as usize..self.at as usize + nwords(self.w)
    }
    fn overlaps(&self, o: &Region) -> bool {
        let (a, b) = (self.range(), o.range());
        a.start < b.end && b.start < a.end
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum StoreOp {
    Read(Region),
    ReadPair(Region, Region),
    Write(Region, Upd),
    /// destination, source
    Copy(Region, Region),
    /// destination, sources, operation
    Op(Region, Region, Region, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StoreCase {
    words: Vec<u64>,
    ops: Vec<StoreOp>,
}

fn region(k: u32, n: u32, words: u32, sub: u32, prev: Option<&Region>) -> Region {
    // large stores also get large regions
    let nw = 1 + words % if n <= 14 { 4 } else { [4, 20, n][(words >> 16) as usize % 3] };
    let w = nw * 64 - match sub % 4 {
        0 => 0,
        1 => 1,
        2 => 63,
        _ => sub / 4 % 64,
    };
    // now and then a region of up to 2^26 words
    let w = if k & 0x3f07 == 0x107 { u32::MAX - sub % 130 } else { w };
    let nw = nwords(w) as u32;
    let at = match (k % 8, prev) {
        // adjacent to, equal to, or overlapping an earlier region
        (0, Some(p)) => p.range().end as u32,
        (1, Some(p)) => (p.at).saturating_sub(nw),
        (2, Some(p)) => p.at,
        (3, Some(p)) => (p.range().end as u32).saturating_sub(1),
        (4, _) => n.saturating_sub(nw),
        // runs out of the store, by little or by far (past what fits in 32 bits)
        (5, _) if k & 0xf00 == 0 => match k >> 16 & 3 {
            0 => u32::MAX - (k >> 18) % 6,
            1 => (k >> 18 & 3) << 30 | (k >> 4) % n.max(1),
            _ => n.saturating_sub(nw) + 1 + (k >> 12) % 3,
        },
        _ => (k >> 4) % n.max(1),
    };
    Region { at, w }
}

fn store_case() -> BoxedStrategy<StoreCase> {
    store_case_of((1u32..=14).boxed())
}

fn store_case_of(n: BoxedStrategy<u32>) -> BoxedStrategy<StoreCase> {
    (
        n,
        raw(),
        proptest::collection::vec((0u8..14, any::<[u32; 3]>(), any::<[u32; 3]>(), any::<[u32; 3]>(), raw()), 1..=6),
    )
        .prop_map(|(n, r, ops)| {
            let words = (0..n as usize).map(|i| r.words[i % r.words.len()].rotate_left(i as u32 * 7) ^ r.style).collect();
            let ops = ops
                .into_iter()
                .map(|(op, k, ws, sub, r)| {
                    let a = region(k[0], n, ws[0], sub[0], None);
                    let mut b = region(k[1], n, ws[1], sub[1], Some(&a));
                    let mut c = region(k[2], n, ws[2], sub[2], Some(if k[2] & 0x8000_0000 != 0 { &a } else { &b }));
                    match op {
                        0 | 1 => StoreOp::Read(a),
                        3..=5 if a.w > 1 << 24 => StoreOp::Read(a),
                        2 => StoreOp::ReadPair(a, b),
                        3..=5 => {
                            let u = upd(k[1] as u8, k[2], &r, a.w);
                            StoreOp::Write(a, u)
                        }
                        6..=8 => {
                            if sub[1] & 0x1_0000 == 0 {
                                b.w = a.w;
                            }
                            StoreOp::Copy(a, b)
                        }
                        _ => {
                            // of one width, or of three
                            if sub[1] & 0x1_0000 == 0 {
                                b.w = a.w;
                                c.w = a.w;
                            }
                            StoreOp::Op(a, b, c, k[0] as u8)
                        }
                    }
                })
                .collect();
            StoreCase { words, ops }
        })
        .boxed()
}

fn at_region(words: &[u64], r: &Region) -> Option<Vec<u64>> {
    words.get(r.range()).map(|x| x.to_vec())
}

fn c21_check(c: &StoreCase, obs: &mut Obs) -> Res {
    let mut m = c.words.clone();
    let mut s = c.words.clone();
    let mut served = 0;
    for (n, op) in c.ops.iter().enumerate() {
        let ctx = || format!("step {n} ({op:?}) on a store of {} words", c.words.len());
        let refused = |r: Result<(), String>| match r {
            Ok(()) => Err(format!("{}: overlap or out-of-range request was served", ctx())),
            Err(_) => Ok(()),
        };
        match op {
            StoreOp::Read(r) => {
                let i = BitVecValueIndex::new(r.at, r.w);
                expect_eq((i.words(), i.to_range(), i.width()), (nwords(r.w), r.range(), r.w), ctx)?;
                match at_region(&m, r) {
                    Some(e) => {
                        let v = if n % 2 == 0 { s.as_slice().get_ref(i) } else { s.as_slice().get_ref(&i) };
                        expect_eq((v.width(), v.words().to_vec()), (r.w, e), ctx)?;
                        served += 1;
                    }
                    None => {
                        obs.label("out of range refused");
                        refused(catch(|| {
                            let _ = s.as_slice().get_ref(i);
                        }))?
                    }
                }
            }
            StoreOp::ReadPair(a, b) => {
                let (i, j) = (BitVecValueIndex::new(a.at, a.w), BitVecValueIndex::new(b.at, b.w));
                match (at_region(&m, a), at_region(&m, b)) {
                    (Some(x), Some(y)) => {
                        let (v, u): (BitVecValueRef, BitVecValueRef) = s.as_slice().get_ref((i, j));
                        expect_eq((v.width(), v.words().to_vec(), u.width(), u.words().to_vec()), (a.w, x, b.w, y), ctx)?;
                        served += 1;
                    }
                    _ => refused(catch(|| {
                        let _: (BitVecValueRef, BitVecValueRef) = s.as_slice().get_ref((i, j));
                    }))?,
                }
            }
            StoreOp::Write(r, u) => {
                let i = BitVecValueIndex::new(r.at, r.w);
                match at_region(&m, r) {
                    Some(x) => {
                        let before = Bv::new(r.w, x.clone());
                        let mut v: BitVecValueMutRef = s.as_mut_slice().get_mut_ref(i);
                        if v.width() != r.w || v.words() != x.as_slice() {
                            return Err(format!("{}: wrong words: {}", ctx(), show(&v)));
                        }
                        // the store may hold unused bits that are set: start from a canonical value
                        v.mask_msb();
                        let e = apply(&mut v, &before, u)?;
                        let now = v.words().to_vec();
                        if let Some(e) = e {
                            expect_eq(now.clone(), e.x, ctx)?;
                        }
                        m[r.range()].copy_from_slice(&now);
                        served += 1;
                    }
                    None => refused(catch(|| {
                        let _: BitVecValueMutRef = s.as_mut_slice().get_mut_ref(i);
                    }))?,
                }
            }
            StoreOp::Copy(a, b) => {
                let (i, j) = (BitVecValueIndex::new(a.at, a.w), BitVecValueIndex::new(b.at, b.w));
                match (at_region(&m, a), at_region(&m, b)) {
                    (Some(x), Some(y)) if !a.overlaps(b) => {
                        let (mut d, r): (BitVecValueMutRef, BitVecValueRef) = s.as_mut_slice().get_mut_ref((i, j));
                        expect_eq(
                            (d.width(), d.words().to_vec(), r.width(), r.words().to_vec()),
                            (a.w, x, b.w, y.clone()),
                            ctx,
                        )?;
                        if a.w == b.w && Bv::new(b.w, y.clone()).x == y {
                            d.assign(r);
                        } else {
                            // not a value, or of another width: only words are copied
                            for (d, s) in d.words_mut().iter_mut().zip(r.words()) {
                                *d = *s;
                            }
                        }
                        for (d, s) in m[a.range()].iter_mut().zip(&y) {
                            *d = *s;
                        }
                        obs.label_if(nwords(a.w) != nwords(b.w), "two regions of different lengths served");
                        obs.label_if(a.range().end == b.at as usize || b.range().end == a.at as usize, "adjacent regions");
                        served += 1;
                    }
                    _ => {
                        obs.label_if(a.overlaps(b), "overlap refused");
                        refused(catch(|| {
                            let _: (BitVecValueMutRef, BitVecValueRef) = s.as_mut_slice().get_mut_ref((i, j));
                        }))?
                    }
                }
            }
            StoreOp::Op(a, b, d, k) => {
                let ix = (BitVecValueIndex::new(a.at, a.w), BitVecValueIndex::new(b.at, b.w), BitVecValueIndex::new(d.at, d.w));
                match (at_region(&m, a), at_region(&m, b), at_region(&m, d)) {
                    (Some(x), Some(y), Some(z)) if !a.overlaps(b) && !a.overlaps(d) => {
                        let (mut dst, p, q): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) =
                            if k % 2 == 0 { s.as_mut_slice().get_mut_ref(ix) } else { s.as_mut_slice().get_mut_ref((&ix.0, &ix.1, &ix.2)) };
                        expect_eq((dst.width(), dst.words().to_vec()), (a.w, x), ctx)?;
                        expect_eq((p.width(), p.words().to_vec()), (b.w, y.clone()), ctx)?;
                        expect_eq((q.width(), q.words().to_vec()), (d.w, z.clone()), ctx)?;
                        let e: Vec<u64> = match k / 2 % 2 {
                            0 => y.iter().zip(&z).map(|(a, b)| a & b).collect(),
                            _ => y.iter().zip(&z).map(|(a, b)| a ^ b).collect(),
                        };
                        let f = |x: u64, y: u64| if k / 2 % 2 == 0 { x & y } else { x ^ y };
                        for (d, (x, y)) in dst.words_mut().iter_mut().zip(p.words().iter().zip(q.words())) {
                            *d = f(*x, *y);
                        }
                        for (d, s) in m[a.range()].iter_mut().zip(&e) {
                            *d = *s;
                        }
                        obs.label("three regions served");
                        obs.label_if(b.at == d.at && nwords(b.w) != nwords(d.w), "shared regions with a common start and different lengths");
                        obs.label_if(b.overlaps(d) && b.at != d.at, "shared regions that overlap in part");
                        served += 1;
                    }
                    _ => {
                        obs.label_if(a.overlaps(b) || a.overlaps(d), "overlap refused");
                        refused(catch(|| {
                            let _: (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) = s.as_mut_slice().get_mut_ref(ix);
                        }))?
                    }
                }
            }
        }
        if s != m {
            return Err(format!("{}: store is {s:x?}, expected {m:x?}", ctx()));
        }
    }
    obs.nontrivial_if(served > 0 && c.ops.len() > 1);
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        suites: vec![
            Box::new(Suite {
                name: "c21_store",
                rule: "histories of 1-6 single, pair and triple requests (adjacent, equal, overlapping, out-of-range regions of \
                       1-4 words) on a store of 1-14 words; the whole store is compared after each; non-trivial: several \
                       operations, at least one served",
                quick: 3_000_000,
                thorough: 48_000_000,
                strat: store_case,
                check: c21_check,
        }),
            Box::new(Suite {
                name: "c21_large",
                rule: "the same on stores of 15-66500 words with regions of up to the whole store; non-trivial as above",
                quick: 30_000,
                thorough: 450_000,
                strat: || store_case_of(one_of![4 => 15u32..=60, 2 => 61u32..=700, 1 => 4000u32..=4200, 1 => 65_500u32..=66_500].boxed()),
                check: c21_check,
            }),
        ],
    }
}

