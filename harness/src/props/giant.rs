//! Values of 2^31 to 2^32 - 1 bits: widths and positions that do not fit a signed 32-bit number.
//! A value is described by the positions of its few set bits; one case at a time, as a value takes up to 512 MiB.

use crate::engine::*;
use crate::model::expect_eq;
use baa::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    w: u32,
    a: BTreeSet<u32>,
    b: BTreeSet<u32>,
    /// positions / amounts
    p: u32,
    q: u32,
    small: u64,
}

fn giant() -> BoxedStrategy<Giant> {
    let w = one_of![3 => (1u32 << 31) - 2..(1 << 31) + 200, 1 => (1u32 << 31)..3_000_000_000, 2 => 4_294_966_000u32..=u32::MAX, 1 => u32::MAX - 64..=u32::MAX];
    let pos = || one_of![2 => any::<u32>(), 2 => (1u32 << 31) - 70..(1 << 31) + 70, 1 => 0u32..200, 3 => u32::MAX - 200..=u32::MAX];
    (w, proptest::collection::vec(pos(), 1..=4), proptest::collection::vec(pos(), 1..=4), pos(), pos(), any::<u64>())
        .prop_map(|(w, a, b, p, q, small)| {
            // large numbers count down from the most significant bit
            let at = |p: u32| if p < w { p } else { w - 1 - (u32::MAX - p) % w };
            Giant { w, a: a.into_iter().map(at).collect(), b: b.into_iter().map(at).collect(), p: at(p), q: at(q), small }
        })
        .boxed()
}

fn val(w: u32, bits: &BTreeSet<u32>) -> BitVecValue {
    let mut v = BitVecValue::zero(w);
    let words = v.words_mut();
    for b in bits {
        words[*b as usize / 64] |= 1 << (b % 64);
    }
    v
}

/// `v` has exactly the given bits set, and all of `[from, w)`
fn check(v: &BitVecValue, w: u32, bits: &BTreeSet<u32>, from: u32, what: &dyn Fn() -> String) -> Res {
    if v.width() != w || v.words().len() != (w as usize).div_ceil(64) {
        return Err(format!("{}: width {} with {} words, expected width {w}", what(), v.width(), v.words().len()));
    }
    let mut next = bits.iter().copied().peekable();
    for (i, got) in v.words().iter().enumerate() {
        let base = i as u64 * 64;
        let mut e = 0u64;
        while let Some(b) = next.peek().copied().filter(|b| (*b as u64) < base + 64) {
            e |= 1 << (b as u64 - base);
            next.next();
        }
        if base >= from as u64 && base + 64 <= w as u64 {
            e = u64::MAX;
        } else if base + 64 > from as u64 {
            for k in 0..64 {
                if (from as u64..w as u64).contains(&(base + k)) {
                    e |= 1 << k;
                }
            }
        }
        if *got != e {
            return Err(format!("{}: word {i} is {got:#x}, expected {e:#x}", what()));
        }
    }
    Ok(())
}

fn begin(obs: &mut Obs) -> std::sync::MutexGuard<'static, ()> {
    obs.nontrivial = true;
    exclusive()
}

/// adds 2^b modulo 2^w
fn add_bit(s: &mut BTreeSet<u32>, mut b: u32, w: u32) {
    while b < w && !s.insert(b) {
        s.remove(&b);
        b += 1;
    }
}

fn c02(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let (w, a, b) = (c.w, val(c.w, &c.a), val(c.w, &c.b));
    let mut sum = c.a.clone();
    c.b.iter().for_each(|x| add_bit(&mut sum, *x, w));
    let s = BitVecOps::add(&a, &b);
    check(&s, w, &sum, w, &|| format!("sum in {c:?}"))?;
    check(&BitVecOps::sub(&s, &b), w, &c.a, w, &|| format!("difference in {c:?}"))?;
    // -2^k has all bits from k set
    let k = *c.a.first().unwrap();
    check(&val(w, &[k].into()).negate(), w, &[].into(), k, &|| format!("negation of 2^{k} in {c:?}"))
}

fn c03(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let (w, a, b) = (c.w, val(c.w, &c.a), val(c.w, &c.b));
    let none = BTreeSet::new();
    check(&a.and(&b), w, &(&c.a & &c.b), w, &|| format!("and in {c:?}"))?;
    check(&a.or(&b), w, &(&c.a | &c.b), w, &|| format!("or in {c:?}"))?;
    check(&a.xor(&b), w, &(&c.a ^ &c.b), w, &|| format!("xor in {c:?}"))?;
    drop(b);
    for p in c.a.iter().chain(&c.b).chain([&c.p, &c.q, &0, &(w - 1)]) {
        expect_eq(a.is_bit_set(*p), c.a.contains(p), || format!("bit {p} in {c:?}"))?;
    }
    check(&BitVecValue::zero(w).not(), w, &none, 0, &|| format!("complement of zero in {c:?}"))?;
    let (mut v, mut m) = (a, c.a.clone());
    for p in [c.p, c.q] {
        v.set_bit(p);
        m.insert(p);
    }
    check(&v, w, &m, w, &|| format!("set bits in {c:?}"))?;
    for p in c.b.iter().chain([&c.p]) {
        v.clear_bit(*p);
        m.remove(p);
    }
    check(&v, w, &m, w, &|| format!("cleared bits in {c:?}"))
}

fn c04(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let (w, a, n) = (c.w, val(c.w, &c.a), c.p);
    let mut amount = BitVecValue::zero(w);
    amount.words_mut()[0] = n as u64;
    let left = c.a.iter().filter(|b| **b < w - n).map(|b| b + n).collect();
    check(&a.shift_left(&amount), w, &left, w, &|| format!("shift left by {n} in {c:?}"))?;
    let right: BTreeSet<u32> = c.a.iter().filter(|b| **b >= n).map(|b| b - n).collect();
    check(&a.shift_right(&amount), w, &right, w, &|| format!("shift right by {n} in {c:?}"))?;
    let fill = if c.a.contains(&(w - 1)) { w - n } else { w };
    check(&a.arithmetic_shift_right(&amount), w, &right, fill, &|| format!("arithmetic shift right by {n} in {c:?}"))?;
    amount.words_mut()[0] = w as u64 + (c.q >> 3) as u64;
    check(&a.shift_left(&amount), w, &[].into(), w, &|| format!("shift left by at least the width in {c:?}"))
}

fn c05(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let (w, a) = (c.w, val(c.w, &c.a));
    let (hi, lo) = (c.p.max(c.q), c.p.min(c.q));
    for (hi, lo) in [(hi, lo), (hi, hi), (w - 1, hi), (lo.saturating_add(70).min(w - 1), lo)] {
        let e = c.a.iter().filter(|b| (lo..=hi).contains(*b)).map(|b| b - lo).collect();
        check(&a.slice(hi, lo), hi - lo + 1, &e, u32::MAX, &|| format!("slice {hi}..{lo} in {c:?}"))?;
    }
    let room = u32::MAX - w;
    let n = (c.small as u32 % 500).min(room);
    check(&a.zero_extend(n), w + n, &c.a, u32::MAX, &|| format!("zero extend by {n} in {c:?}"))?;
    let fill = if c.a.contains(&(w - 1)) { w } else { u32::MAX };
    check(&a.sign_extend(n), w + n, &c.a, fill, &|| format!("sign extend by {n} in {c:?}"))?;
    if n > 0 {
        let low: BTreeSet<u32> = [n - 1].into();
        let up = |s: &BTreeSet<u32>, by: u32| s.iter().map(|b| b + by).collect::<BTreeSet<u32>>();
        check(&a.concat(&val(n, &low)), w + n, &(&up(&c.a, n) | &low), u32::MAX, &|| format!("concat with {n} low bits in {c:?}"))?;
        check(&val(n, &low).concat(&a), w + n, &(&c.a | &up(&low, w)), u32::MAX, &|| format!("concat with {n} high bits in {c:?}"))?;
    }
    Ok(())
}

fn c06(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let (a, b) = (val(c.w, &c.a), val(c.w, &c.b));
    let e = c.a.iter().rev().cmp(c.b.iter().rev());
    let top = c.w - 1;
    let (na, nb) = (c.a.contains(&top), c.b.contains(&top));
    let s = if na == nb { e } else { nb.cmp(&na) };
    for (what, got, e) in [
        ("is_equal", a.is_equal(&b), e.is_eq()),
        ("is_less", a.is_less(&b), e.is_lt()),
        ("is_less_or_equal", a.is_less_or_equal(&b), e.is_le()),
        ("is_greater", a.is_greater(&b), e.is_gt()),
        ("is_greater_or_equal", a.is_greater_or_equal(&b), e.is_ge()),
        ("is_less_signed", a.is_less_signed(&b), s.is_lt()),
        ("is_less_or_equal_signed", a.is_less_or_equal_signed(&b), s.is_le()),
        ("is_greater_signed", a.is_greater_signed(&b), s.is_gt()),
        ("is_greater_or_equal_signed", a.is_greater_or_equal_signed(&b), s.is_ge()),
        ("is_negative", a.is_negative(), na),
        ("is_zero", a.is_zero(), false),
    ] {
        expect_eq(got, e, || format!("{what} in {c:?}"))?;
    }
    Ok(())
}

fn c08(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let w = c.w;
    let i = c.small as i64;
    let v = BitVecValue::from_i64(i, w);
    expect_eq(v.to_i64(), Some(i), || format!("to_i64 of from_i64({i}, {w})"))?;
    expect_eq(v.is_negative(), i < 0, || format!("sign of from_i64({i}, {w})"))?;
    expect_eq(v.to_u64(), (i >= 0).then_some(c.small), || format!("to_u64 of from_i64({i}, {w})"))?;
    expect_eq(BitVecValue::from_u64(c.small, w).to_u64(), Some(c.small), || format!("to_u64 of from_u64({}, {w})", c.small))
}

fn hash(v: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn c07(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let (a, b) = (val(c.w, &c.a), val(c.w, &c.b));
    expect_eq(a == b, c.a == c.b, || format!("== in {c:?}"))?;
    expect_eq(a.cmp(&b).is_eq(), c.a == c.b, || format!("cmp in {c:?}"))?;
    expect_eq(a.cmp(&b), b.cmp(&a).reverse(), || format!("cmp, swapped, in {c:?}"))?;
    let mut copy = BitVecValue::ones(c.w);
    copy.assign(&a);
    drop(b);
    expect_eq(copy == a && a.cmp(&copy).is_eq(), true, || format!("copy equal in {c:?}"))?;
    expect_eq(hash(&copy), hash(&a), || format!("hash of a copy in {c:?}"))
}

fn c09(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let bytes = val(c.w, &c.a).to_bytes_le();
    expect_eq(bytes.len(), (c.w as usize).div_ceil(8), || format!("number of bytes at width {}", c.w))?;
    for (i, x) in bytes.iter().enumerate().filter(|(_, x)| **x != 0) {
        let e = (0..8).filter(|k| c.a.contains(&((i as u64 * 8 + k) as u32))).map(|k| 1u8 << k).sum();
        expect_eq(*x, e, || format!("byte {i} in {c:?}"))?;
    }
    let set: u32 = bytes.iter().map(|x| x.count_ones()).sum();
    expect_eq(set as usize, c.a.len(), || format!("bits in the bytes in {c:?}"))?;
    check(&BitVecValue::from_bytes_le(&bytes, c.w), c.w, &c.a, u32::MAX, &|| format!("from bytes in {c:?}"))
}

fn c10(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let mut n = num_bigint::BigUint::default();
    for b in c.a.iter().rev() {
        n.set_bit(*b as u64, true);
    }
    let v = BitVecValue::from_big_uint(&n, c.w);
    check(&v, c.w, &c.a, u32::MAX, &|| format!("from_big_uint in {c:?}"))?;
    expect_eq(v.to_big_uint() == n, true, || format!("to_big_uint in {c:?}"))?;
    drop(v);
    // inferred widths; mostly of a number that needs about the largest width
    if c.q % 8 != 0 {
        n.set_bit((u32::MAX - 1 - c.p % 70) as u64, true);
    }
    let v = BitVecValue::from(&n);
    let back = v.to_big_uint();
    expect_eq(back == n, true, || format!("to_big_uint({} bits) of the inferred width {} in {c:?}", n.bits(), v.width()))?;
    drop((v, back));
    if c.small % 4 == 0 {
        // no width is large enough: nothing but a refusal is possible
        let mut n = n.clone();
        n.set_bit(u32::MAX as u64 + c.small % 70, true);
        let signed = c.q % 2 == 0;
        let served = catch(|| if signed { BitVecValue::from(&num_bigint::BigInt::from(n.clone())) } else { BitVecValue::from(&n) }.width());
        if let Ok(w) = served {
            return Err(format!("a number of {} bits was given {w} bits", n.bits()));
        }
    }
    if n.bits() < u32::MAX as u64 {
        let i = if c.p % 2 == 0 { -num_bigint::BigInt::from(n) } else { n.into() };
        let v = BitVecValue::from(&i);
        expect_eq(v.to_big_int() == i, true, || format!("to_big_int of the inferred width {} in {c:?}", v.width()))?;
    }
    let i = -num_bigint::BigInt::from(1);
    let v = BitVecValue::from_big_int(&i, c.w);
    check(&v, c.w, &BTreeSet::new(), 0, &|| format!("from_big_int(-1) at {}", c.w))?;
    expect_eq(v.to_big_int() == i, true, || format!("to_big_int of all ones at {}", c.w))
}

fn c15(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let mut v = val(c.w, &c.a);
    let none = BTreeSet::new();
    v.assign_ones();
    check(&v, c.w, &none, 0, &|| format!("assign_ones in {c:?}"))?;
    v.assign(&val(c.w, &c.b));
    check(&v, c.w, &c.b, u32::MAX, &|| format!("assign in {c:?}"))?;
    v.assign_from_u64(c.small);
    let bits: BTreeSet<u32> = (0..64).filter(|b| c.small >> b & 1 == 1).collect();
    check(&v, c.w, &bits, u32::MAX, &|| format!("assign_from_u64 in {c:?}"))?;
    v.set_bit(c.p);
    v.clear();
    check(&v, c.w, &none, u32::MAX, &|| format!("clear in {c:?}"))
}

fn c12(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let mut v = BitVecValue::zero(c.w);
    v.words_mut()[0] = c.small;
    v.words_mut()[1] = c.q as u64;
    let e = ((c.q as u128) << 64 | c.small as u128).to_string();
    expect_eq(v.to_dec_str(), e, || format!("to_dec_str at width {}", c.w))?;
    drop(v);
    // all digits of a value with few bits set; a power of two with either sign
    let per = if c.p % 2 == 0 { 4u32 } else { 1 };
    let v = val(c.w, &c.a);
    let text = if per == 4 { v.to_hex_str() } else { v.to_bit_str() };
    drop(v);
    let what = || format!("{} in {c:?}", if per == 4 { "to_hex_str" } else { "to_bit_str" });
    expect_eq(text.len() as u64, (c.w as u64).div_ceil(per as u64), || format!("number of digits of {}", what()))?;
    let mut e: std::collections::BTreeMap<usize, u32> = Default::default();
    for b in &c.a {
        *e.entry(text.len() - 1 - (b / per) as usize).or_default() |= 1 << (b % per);
    }
    let mut next = e.iter().peekable();
    for (i, x) in text.bytes().enumerate() {
        let d = next.next_if(|(p, _)| **p == i).map(|(_, d)| *d).unwrap_or(0);
        if x != b"0123456789abcdef"[d as usize] {
            return Err(format!("{}: digit {i} is {:?}, expected {d:x}", what(), x as char));
        }
    }
    drop(text);
    let k = *c.b.first().unwrap();
    let v = val(c.w, &(k..=k).collect()).negate();
    let text = if per == 4 { v.to_hex_str_signed() } else { v.to_bit_str_signed() };
    let digits = text.strip_prefix('-').unwrap_or("").trim_start_matches('0').as_bytes();
    let lead = digits.first().copied().unwrap_or(b'?');
    let good = digits.len() == (k / per) as usize + 1 && lead == b'0' + (1 << (k % per)) && digits[1..].iter().all(|x| *x == b'0');
    expect_eq(good, true, || format!("signed rendering of -2^{k} at width {} in base {}", c.w, 1 << per))
}

fn c13(c: &Giant, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    for (radix, text) in [(2, format!("{:b}", c.small)), (16, format!("{:X}", c.small)), (10, c.small.to_string())] {
        let bits: BTreeSet<u32> = (0..64).filter(|b| c.small >> b & 1 == 1).collect();
        match BitVecValue::from_str_radix(&text, radix, c.w) {
            Ok(v) => check(&v, c.w, &bits, u32::MAX, &|| format!("{text:?} (radix {radix}) at width {}", c.w))?,
            Err(e) => return Err(format!("{text:?} (radix {radix}) at width {}: error {:?}", c.w, e.kind)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ long texts

/// A text of about 2^30 to 2^32 characters: sign, first digit, `n` times the same digit, tail.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongText {
    sign: String,
    lead: char,
    fill: char,
    n: u64,
    tail: String,
    /// 0: inferred by from_bit_str or from_hex_str
    width: u32,
    radix: u32,
}

impl LongText {
    fn parse(&self) -> Result<BitVecValue, String> {
        let mut t = format!("{}{}", self.sign, self.lead).into_bytes();
        t.resize(t.len() + self.n as usize, self.fill as u8);
        t.extend(self.tail.bytes());
        let t = String::from_utf8(t).unwrap();
        let r = match (self.width, self.radix) {
            (0, 2) => BitVecValue::from_bit_str(&t),
            (0, _) => BitVecValue::from_hex_str(&t),
            (w, r) => BitVecValue::from_str_radix(&t, r, w),
        };
        r.map_err(|e| format!("{:?}", e.kind))
    }
    fn digits(&self) -> u64 {
        1 + self.n + self.tail.len() as u64
    }
}

fn long_text(fits: bool) -> BoxedStrategy<LongText> {
    let sign = one_of![2 => Just(""), 1 => Just("-"), 1 => Just("+")];
    (0u8..6, sign, 0u64..200, any::<u64>(), 129u32..400, 0u8..5)
        .prop_map(move |(kind, sign, k, x, width, radix)| {
            let (radix, tail) = match radix {
                0 | 1 => (2, format!("{x:b}")),
                2 if kind > 2 => (10, x.to_string()),
                _ => (16, format!("{x:x}")),
            };
            let hex = radix == 16;
            let (lead, fill) = if x % 2 == 0 { ('1', '0') } else { ('0', '0') };
            let base = LongText { sign: sign.into(), lead, fill, n: 0, tail, width, radix };
            let rest = 1 + base.tail.len() as u64;
            match (fits, kind) {
                // an inferred width just below the largest one
                (true, 0..=2) => {
                    let digits = (if hex { 1 << 30 } else { 1u64 << 32 }) - 2 - k % 70;
                    LongText { n: digits - rest, width: 0, ..base }
                }
                // leading zeros
                (true, _) => LongText { lead: '0', sign: sign.into(), n: (1 << 32) - 100 + k, ..base },
                // an inferred width just too large
                (false, 0..=2) => {
                    let digits = if hex { (1u64 << 30) + k } else { (1 << 32) - (sign == "-") as u64 + k };
                    LongText { n: digits - rest, width: 0, ..base }
                }
                // more digits than 32 bits count, at a given width
                (false, _) => LongText { lead: '1', n: (1u64 << (if hex && x % 3 == 0 { 30 } else { 32 })) - rest + k, ..base },
            }
        })
        .boxed()
}

/// As many digits as the largest widths have room for.
fn largest_text(fits: bool) -> BoxedStrategy<LongText> {
    let sign = one_of![2 => Just(""), 1 => Just("-"), 1 => Just("+")];
    (sign, 0u64..16, any::<u64>(), 0u8..4)
        .prop_map(move |(sign, k, x, kind)| {
            let width = u32::MAX - (k % 2) as u32;
            let (radix, tail, most) = match kind {
                0 => (2, format!("{:b}", x | 1), width as u64 - (fits && sign == "-") as u64),
                _ => (16, format!("{:x}", x | 1), 1 << 30),
            };
            let digits = match (fits, radix) {
                (true, _) => most - (k / 2 % 4).saturating_sub(2),
                (false, 2) => most + (sign != "-") as u64 + k / 2 % 2,
                (false, _) => most + (k / 8 % 2) * (k % 3),
            };
            let lead = if fits || radix == 2 { '1' } else { ['8', '9', 'c', 'F'][(k / 2 % 4) as usize] };
            LongText { sign: sign.into(), lead, fill: '0', n: digits - 1 - tail.len() as u64, tail, width, radix }
        })
        .boxed()
}

fn c14(c: &LongText, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    match catch(|| c.parse()) {
        Err(e) => Err(format!("{c:?}: panic: {e}")),
        Ok(Ok(v)) => Err(format!("{c:?}: accepted at width {}", v.width())),
        Ok(Err(e)) if e == "ExceedsWidth" => Ok(()),
        // no width can be inferred: which error is not settled
        Ok(Err(_)) if c.width == 0 => Ok(()),
        Ok(Err(e)) => Err(format!("{c:?}: error {e} for a numeral that does not fit")),
    }
}

fn c13_long(c: &LongText, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let mut m = num_bigint::BigUint::parse_bytes(c.tail.as_bytes(), c.radix).unwrap();
    let per = if c.radix == 2 { 1u64 } else { 4 };
    if c.lead == '1' {
        m.set_bit((c.digits() - 1) * per, true);
    }
    let w = if c.width == 0 { c.digits() * per + (c.sign == "-") as u64 } else { c.width as u64 };
    let v = match catch(|| c.parse()) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return Err(format!("{c:?}: error {e:?}")),
        Err(e) => return Err(format!("{c:?}: panic: {e}")),
    };
    expect_eq(v.width() as u64, w, || format!("width of {c:?}"))?;
    if c.sign == "-" {
        // the inferred width has room for the sign
        expect_eq(v.to_big_int() == -num_bigint::BigInt::from(m), true, || format!("value of {c:?}"))
    } else {
        expect_eq(v.to_big_uint() == m, true, || format!("value of {c:?}"))
    }
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GiantIntern {
    /// width and set bits
    vals: Vec<(u32, BTreeSet<u32>)>,
    order: Vec<u8>,
}

/// Values of 2^30 to 2^31 bits and small ones, in total more than 2^32 bits (2^26 words), then small ones again.
fn giant_intern() -> BoxedStrategy<GiantIntern> {
    let big = one_of![3 => (1u32 << 30)..(1 << 30) + 300, 2 => (1u32 << 31) - 200..(1 << 31) + 200, 1 => (1u32 << 30)..(1 << 31)];
    let bits = || proptest::collection::vec(any::<u32>(), 0..=3);
    (
        proptest::collection::vec((big, bits(), any::<bool>()), 5),
        proptest::collection::vec((1u32..300, bits()), 3..=6),
        proptest::collection::vec(any::<u8>(), 3..=10),
    )
        .prop_map(|(big, small, mut order)| {
            let mut total = 0u64;
            let mut vals: Vec<(u32, BTreeSet<u32>)> = vec![];
            for (k, (w, b, same)) in big.into_iter().enumerate() {
                if total > 1 << 32 {
                    break;
                }
                // of distinct words
                let mut b: BTreeSet<u32> = b.into_iter().map(|x| x % w).collect();
                b.insert(w - 1 - k as u32);
                total += w as u64;
                vals.push((w, b.clone()));
                if same && w % 64 != 0 {
                    // the same words at another width
                    vals.push((w + 1, b));
                }
            }
            let giants = vals.len();
            vals.extend(small.into_iter().map(|(w, b)| (w, b.into_iter().map(|x| x % w).collect())));
            let n = vals.len();
            order.iter_mut().for_each(|x| *x = (*x as usize % n) as u8);
            // the giant ones with some small ones in between, then every one (again)
            let mut all: Vec<u8> = vec![];
            for k in 0..giants {
                all.push(k as u8);
                all.extend(order.get(k).filter(|x| **x as usize >= giants));
            }
            all.extend((giants as u8..n as u8).rev());
            // a value of three words with its own top bit, never interned before
            vals.push((130, [129, order[0] as u32].into()));
            all.push(n as u8);
            all.extend(order);
            GiantIntern { vals, order: all }
        })
        .boxed()
}

fn c20(c: &GiantIntern, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let mut i = ValueInterner::new();
    let mut known: Vec<(usize, BitVecValueIndex)> = vec![];
    let look = |i: &ValueInterner, k: usize, ix: BitVecValueIndex, when: &str| {
        let (w, bits) = &c.vals[k];
        let what = || format!("value {k} looked up {when} in {c:?}");
        if ix.width() != *w || ix.to_range().end > i.words().len() {
            return Err(format!("{}: index {ix:?} in a store of {} words", what(), i.words().len()));
        }
        let v: BitVecValueRef = i.words().get_ref(ix);
        let mut found = BTreeSet::new();
        for (n, x) in v.words().iter().enumerate() {
            let mut x = *x;
            while x != 0 && found.len() < 1000 {
                found.insert((n * 64) as u64 + x.trailing_zeros() as u64);
                x &= x - 1;
            }
        }
        expect_eq((v.width(), found), (*w, bits.iter().map(|b| *b as u64).collect()), what)
    };
    for k in &c.order {
        let k = *k as usize;
        let (w, bits) = &c.vals[k];
        let ix = i.get_index(&val(*w, bits));
        match known.iter().find(|(o, _)| c.vals[*o] == c.vals[k]) {
            Some((_, old)) => expect_eq(ix, *old, || format!("index of value {k} when interned again in {c:?}"))?,
            None => {
                if let Some((o, _)) = known.iter().find(|(_, old)| *old == ix) {
                    return Err(format!("values {o} and {k} share an index in {c:?}"));
                }
                known.push((k, ix));
            }
        }
        look(&i, k, ix, "at once")?;
    }
    for (k, ix) in &known {
        look(&i, *k, *ix, "at the end")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GiantStore {
    words: u32,
    /// first word and width of three regions, kind of request
    ops: Vec<([(u32, u32); 3], u8)>,
}

/// a store of more than 2^26 words: bit positions beyond 2^32
fn giant_store() -> BoxedStrategy<GiantStore> {
    let at = || {
        one_of![
            2 => any::<u32>(),
            1 => 0u32..70,
            2 => (1u32 << 26) - 10..(1 << 26) + 10,
            1 => (1u32 << 16) - 10..(1 << 16) + 10,
            1 => (1u32 << 24) - 10..(1 << 24) + 10,
            1 => (1u32 << 25) - 10..(1 << 25) + 10,
            // counted from the end of the store
            3 => u32::MAX - 20..=u32::MAX
        ]
    };
    let w = || one_of![6 => 1u32..=300, 1 => (1u32 << 22) - 100..(1 << 22) + 100, 1 => (1u32 << 31) - 100..(1 << 31) + 100, 1 => u32::MAX - 100..=u32::MAX];
    let region = move || (at(), w());
    (1u32..3000, proptest::collection::vec(([region(), region(), region()], 0u8..8), 2..=6))
        .prop_map(|(n, mut ops)| {
            let words = (1 << 26) + n;
            for (rs, kind) in &mut ops {
                for k in 0..3 {
                    let (at, w) = rs[k];
                    // next to an earlier region, from the end, or anywhere
                    rs[k].0 = match at % 16 {
                        0 if k > 0 => rs[k - 1].0.saturating_add(rs[k - 1].1.div_ceil(64)),
                        1 if k > 0 => rs[0].0,
                        2 if k > 0 => rs[0].0.saturating_sub(w.div_ceil(64)),
                        _ if at > u32::MAX - 21 => (words - (u32::MAX - at)).saturating_sub(w.div_ceil(64) - 1),
                        // hardly ever outside the store, but if so then far outside
                        _ if *kind != 0 => at % words,
                        _ => at,
                    };
                }
            }
            GiantStore { words, ops }
        })
        .boxed()
}

fn c21(c: &GiantStore, obs: &mut Obs) -> Res {
    let _g = begin(obs);
    let mut s = vec![0u64; c.words as usize];
    let mut m: std::collections::BTreeMap<usize, u64> = Default::default();
    let mut tag = 0u64;
    for (rs, kind) in &c.ops {
        let ranges = rs.map(|(at, w)| at as usize..at as usize + (w as usize).div_ceil(64));
        let ix = rs.map(|(at, w)| BitVecValueIndex::new(at, w));
        for (r, i) in ranges.iter().zip(&ix) {
            expect_eq(i.to_range(), r.clone(), || format!("range of {i:?}"))?;
        }
        let fits = ranges.clone().map(|r| r.end <= s.len());
        let meets = |a: usize, b: usize| ranges[a].start < ranges[b].end && ranges[b].start < ranges[a].end;
        // the first and last words of the regions become recognisable
        for (r, fits) in ranges.iter().zip(fits) {
            for p in if fits { vec![r.start, r.end - 1] } else { vec![] } {
                tag += 1;
                s[p] = tag << 32 | p as u64;
                m.insert(p, s[p]);
            }
        }
        let ctx = || format!("request {kind} for {rs:?} in a store of {} words", c.words);
        let of = |m: &std::collections::BTreeMap<usize, u64>, k: usize| (rs[k].1, ranges[k].len(), m[&ranges[k].start], m[&(ranges[k].end - 1)]);
        fn seen(v: &impl BitVecOps) -> (u32, usize, u64, u64) {
            (v.width(), v.words().len(), v.words()[0], *v.words().last().unwrap())
        }
        let (needed, served) = match kind {
            0 | 1 => (1, fits[0]),
            2 => (2, fits[0] && fits[1]),
            3 => (1, fits[0]),
            4 | 5 => (2, fits[0] && fits[1] && !meets(0, 1)),
            _ => (3, fits[0] && fits[1] && fits[2] && !meets(0, 1) && !meets(0, 2)),
        };
        let expected: Vec<_> = if served { (0..needed).map(|k| of(&m, k)).collect() } else { vec![] };
        let write = |v: &mut BitVecValueMutRef, m: &mut std::collections::BTreeMap<usize, u64>| {
            let n = v.words().len();
            v.words_mut()[0] = tag << 32 | 1;
            v.words_mut()[n - 1] = tag << 32 | 2;
            m.insert(ranges[0].start, tag << 32 | 1);
            m.insert(ranges[0].end - 1, tag << 32 | 2);
        };
        let mut now = m.clone();
        let got = catch(|| match kind {
            0 | 1 => {
                let a: BitVecValueRef = s.as_slice().get_ref(ix[0]);
                vec![seen(&a)]
            }
            2 => {
                let (a, b): (BitVecValueRef, BitVecValueRef) = s.as_slice().get_ref((ix[0], ix[1]));
                vec![seen(&a), seen(&b)]
            }
            3 => {
                let mut a: BitVecValueMutRef = s.as_mut_slice().get_mut_ref(ix[0]);
                let r = vec![seen(&a)];
                write(&mut a, &mut now);
                r
            }
            4 | 5 => {
                let (mut a, b): (BitVecValueMutRef, BitVecValueRef) = s.as_mut_slice().get_mut_ref((ix[0], ix[1]));
                let r = vec![seen(&a), seen(&b)];
                write(&mut a, &mut now);
                r
            }
            _ => {
                let (mut a, b, d): (BitVecValueMutRef, BitVecValueRef, BitVecValueRef) =
                    s.as_mut_slice().get_mut_ref((ix[0], ix[1], ix[2]));
                let r = vec![seen(&a), seen(&b), seen(&d)];
                write(&mut a, &mut now);
                r
            }
        });
        match got {
            Ok(v) if served => {
                expect_eq(v, expected, || format!("{}: width, length, first and last word", ctx()))?;
                m = now;
            }
            Ok(_) => return Err(format!("{}: overlap or out-of-range request was served", ctx())),
            Err(e) if served => return Err(format!("{}: refused: {e}", ctx())),
            Err(_) => obs.label("refused"),
        }
        obs.label_if(served, "served");
    }
    let mut written = m.iter().peekable();
    for (p, x) in s.iter().enumerate() {
        let e = written.next_if(|(q, _)| **q == p).map(|(_, x)| *x).unwrap_or(0);
        if *x != e {
            return Err(format!("word {p} is {x:#x}, expected {e:#x} at the end of {c:?}"));
        }
    }
    Ok(())
}

/// The suite for a property, if it has one.
pub fn suite(id: &str) -> Option<Box<dyn DynSuite>> {
    macro_rules! s {
        ($name:literal, $check:expr) => {
            Some(Box::new(Suite {
                name: $name,
                rule: "values of 2^31-2 to 2^32-1 bits with few bits set, positions and amounts around 2^31 and the width; every case non-trivial",
                quick: 2,
                thorough: 32,
                strat: giant,
                check: $check,
            }))
        };
    }
    macro_rules! text {
        ($name:literal, $fits:literal, $check:expr) => {
            Some(Box::new(Suite {
                name: $name,
                rule: "texts of about 2^30 (hexadecimal) and 2^32 (any radix) digits and of 2^32 leading zeros, inferred and given widths; every case non-trivial",
                quick: 4,
                thorough: 32,
                strat: || long_text($fits),
                check: $check,
            }))
        };
    }
    macro_rules! largest {
        ($name:literal, $fits:literal, $check:expr) => {
            Some(Box::new(Suite {
                name: $name,
                rule: "numerals of as many digits as the two largest widths have room for; every case non-trivial",
                quick: 3,
                thorough: 32,
                strat: || largest_text($fits),
                check: $check,
            }))
        };
    }
    match id {
        "C13-largest" => largest!("c13_largest_text", true, c13_long),
        "C14-largest" => largest!("c14_largest_text", false, c14),
        "C14" => text!("c14_giant", false, c14),
        "C02" => s!("c02_giant", c02),
        "C03" => s!("c03_giant", c03),
        "C04" => s!("c04_giant", c04),
        "C05" => s!("c05_giant", c05),
        "C06" => s!("c06_giant", c06),
        "C08" => s!("c08_giant", c08),
        "C07" => s!("c07_giant", c07),
        "C09" => s!("c09_giant", c09),
        "C10" => s!("c10_giant", c10),
        "C15" => s!("c15_giant", c15),
        "C12" => s!("c12_giant", c12),
        "C13" => s!("c13_giant", c13),
        "C13-text" => text!("c13_giant_text", true, c13_long),
        "C20" => Some(Box::new(Suite {
            name: "c20_giant",
            rule: "values of 2^30 to 2^31 bits interned among small ones, in total mostly more than 2^26 words; values interned again and \
                   all looked up again; every case non-trivial",
            quick: 3,
            thorough: 40,
            strat: giant_intern,
            check: c20,
        })),
        "C21" => Some(Box::new(Suite {
            name: "c21_giant",
            rule: "2-6 requests for one to three regions in a store of more than 2^26 words; every case non-trivial",
            quick: 40,
            thorough: 600,
            strat: giant_store,
            check: c21,
        })),
        _ => None,
    }
}
